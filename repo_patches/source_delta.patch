From 55dc0eddbcd2bae06c25c5f4dda6fddbde926444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 01/36] fix: pass width and depth to Memory and SyncFIFO by
 keyword

nmigen accepts them by keyword only: every module that contains the encoder,
the pipeline FIFO, the converter FIFO or the AXI HP FIFO failed to construct.
---
 migen_src/axihp_fifo.py         | 2 +-
 migen_src/converter_fifo.py     | 2 +-
 migen_src/encode.py             | 2 +-
 migen_src/lj92_pipeline_fifo.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/migen_src/axihp_fifo.py b/migen_src/axihp_fifo.py
index 0428edc..f8e8e60 100644
--- a/migen_src/axihp_fifo.py
+++ b/migen_src/axihp_fifo.py
@@ -32,7 +32,7 @@ class AxiHPFifo(Elaboratable):
 			[self.writable16, self.readable16] + \
 			[self.read]
 
-		self.fifo = SyncFIFO(65, 32)
+		self.fifo = SyncFIFO(width=65, depth=32)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/converter_fifo.py b/migen_src/converter_fifo.py
index 9109081..bcad38e 100644
--- a/migen_src/converter_fifo.py
+++ b/migen_src/converter_fifo.py
@@ -72,7 +72,7 @@ class ConverterFifo(Elaboratable):
 			[self.enc_out, self.enc_out_ctr, self.out_end, self.valid_out] + \
 			[self.latch_output, self.writable, self.close_full]
 
-		self.fifo = SyncFIFOBuffered(self.total_bits, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_bits, depth=self.depth)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/encode.py b/migen_src/encode.py
index 0d7b6df..d5abb8f 100644
--- a/migen_src/encode.py
+++ b/migen_src/encode.py
@@ -192,7 +192,7 @@ class Encode(Elaboratable):
 		self.end_out = Signal(1)
 
 		# read ports to be accessed by encoders
-		self.mem = Memory(self.bd+21, self.bd+1, init_huff_table(self.bd))
+		self.mem = Memory(width=self.bd+21, depth=self.bd+1, init=init_huff_table(self.bd))
 		self.read_ports = [self.mem.read_port() for _ in range(self.ps)]
 		
 		if self.axi_lite:
diff --git a/migen_src/lj92_pipeline_fifo.py b/migen_src/lj92_pipeline_fifo.py
index cfac0c7..9642a39 100644
--- a/migen_src/lj92_pipeline_fifo.py
+++ b/migen_src/lj92_pipeline_fifo.py
@@ -72,7 +72,7 @@ class LJ92PipelineFifo(Elaboratable):
 			[self.latch_output, self.close_full]
 
 		# 4x dual port bram with 36kb each.
-		self.fifo = SyncFIFOBuffered(self.total_width, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_width, depth=self.depth)
 
 	def elaborate(self, platform):
 
-- 
2.43.0


From 0f36925bd62f411afcf30187f74d4985f954fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 02/36] fix: b64_b32 constructs with nmigen's keyword-only,
 replace-less SyncFIFO

---
 migen_src/b64_b32.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a91dd0d..a19e955 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -53,17 +53,11 @@ class B64B32(Elaboratable):
         m = Module()
 
         # fifo module
-        fifo64 = SyncFIFO(64, 2)
-        fifo32 = SyncFIFO(32, 4)
+        fifo64 = SyncFIFO(width=64, depth=2)
+        fifo32 = SyncFIFO(width=32, depth=4)
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
-        # set replace to zero
-        m.d.sync += [
-            fifo32.replace.eq(0),
-            fifo64.replace.eq(0),
-        ]
-
         # register
         reg = Signal(64)
 
-- 
2.43.0


From 0fc35808cc0d5ba2541cc1aa2746ae859a99ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 03/36] fix: b16_b40 keeps the whole carried-over byte while
 the second buffer is busy

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..0d837a9 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
-- 
2.43.0


From e0427e132a7fc3f9711a3dadb6a036c0d5a8b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 04/36] fix: writing one half of a huffman table entry keeps
 the other half

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..1b2cd73 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
-- 
2.43.0


From fbaa7f5fcbe640e62c398aa06f59c5abb7741106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 05/36] fix: the AXI-lite slaves take a write datum on its
 handshake only

---
 migen_src/core_axi_lite.py | 3 ++-
 migen_src/dma_axi_lite.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 1b2cd73..daef1ca 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -363,7 +363,8 @@ class CoreAxiLite(Elaboratable):
 
 			with m.State("WRITE_DATA"):
 				m.d.full += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi.wvalid):
+				with m.If((self.s_axi_wi.wvalid==1) & (wready_v==1)):
+					m.d.full += wready_v.eq(0)	# one datum only
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi.wdata),
 						wstrb_v.eq(self.s_axi_wi.wstrb),
diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index e409c42..337502c 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -254,7 +254,8 @@ class DMAAxiLite(Elaboratable):
 			with m.State("WRITE_DATA"):
 				m.d.sync += awready_v.eq(0)	# done
 				m.d.sync += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi_.wvalid):
+				with m.If((self.s_axi_wi_.wvalid==1) & (wready_v==1)):
+					m.d.sync += wready_v.eq(0)	# one datum only
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi_.wdata),
 						wstrb_v.eq(self.s_axi_wi_.wstrb),
-- 
2.43.0


From 26115883ae1ffe699310cbd60541a753f0ec5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 06/36] fix: differences of 16-bit pixels are coded modulo
 65536

---
 migen_src/difference.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/migen_src/difference.py b/migen_src/difference.py
index b219c55..07f35da 100644
--- a/migen_src/difference.py
+++ b/migen_src/difference.py
@@ -86,8 +86,17 @@ class Difference(Elaboratable):
 
 		#if valid data
 		with m.If(self.valid_in):
-			m.d.sync += [val_out.eq(pixel_in-predic_in) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
-			m.d.sync += [val_out_mns.eq(pixel_in-predic_in-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
+			for val_out, val_out_mns, pixel_in, predic_in in zip(self.vals_out, self.vals_out_mns, self.pixels_in, self.predics_in):
+				diff = Signal(self.bd+1)
+				m.d.comb += diff.eq(pixel_in-predic_in)
+				# lossless JPEG codes the differences modulo 65536, only 16 bits
+				# pixels can exceed that.
+				if self.bd == 16:
+					diff = Cat(diff[0:16], diff[15])
+				m.d.sync += [
+					val_out.eq(diff),
+					val_out_mns.eq(diff-1),
+				]
 
 		#if valid data
 		m.d.sync += self.valid_out.eq(self.valid_in)
-- 
2.43.0


From 459d540f4a5c35b5ddd7a363bbe94b5c19b36321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 07/36] fix: axihp_writer marks the sixteenth beat as last and
 ends the burst with it

---
 migen_src/axihp_writer.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..03fdbc9 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -120,16 +120,12 @@ class AxiHPWriter(Elaboratable):
 		# wlast circuit
 		counter = Signal(4)
 		with m.If(data_en):
-			with m.If(counter==(self.data_c-1)):
-				m.d.sync += [
-					counter.eq(0),
-					wlast.eq(1),
-				]
+			with m.If(wlast):
+				m.d.sync += counter.eq(0)
 			with m.Else():
-				m.d.sync += [
-					wlast.eq(0),
-					counter.eq(counter + 1),
-				]
+				m.d.sync += counter.eq(counter + 1)
+
+		m.d.comb += wlast.eq(counter==(self.data_c-1))
 
 		m.d.comb += data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1))
 
@@ -141,7 +137,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If((data_en==1) & (wlast==1)):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -180,11 +176,11 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		with m.If((addr_en==1) & ((data_en & wlast)==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & ((data_en & wlast)==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
-- 
2.43.0


From 515eac33b939b002d3f5602f8efe75b7f5d0910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 08/36] fix: axihp_reader counts a burst as finished on the
 transfer of its last beat

---
 migen_src/axihp_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..e6c5a75 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -105,6 +105,7 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		m.d.comb += data_en.eq((rready==1) & (self.m_axi_ri.rvalid==1))
+		m.d.comb += rlast.eq((data_en==1) & (self.m_axi_ri.rlast==1))
 
 		# idle phase
 		with m.If(rready==0):
@@ -114,7 +115,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If(rlast):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -130,11 +131,11 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		with m.If((addr_en==1) & (rlast==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & (rlast==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
-- 
2.43.0


From 49c964b034a487b621b65696f707a1ed9462ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 09/36] fix: micro_integration passes the end of frame and the
 markers back-pressure through

---
 migen_src/micro_integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..f5b07dd 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
-- 
2.43.0


From d4947dd59527c592f34d2607d550d6d5d94a1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 10/36] fix: no extra marker word in the auto reset cycle

---
 migen_src/beta_integration.py  | 3 ++-
 migen_src/micro_integration.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index 6d7019c..bf14bad 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -127,7 +127,8 @@ class BetaIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			# nothing is left to send in the reset cycle after the last word
+			self.valid_out.eq(markers.valid_out & (auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index f5b07dd..8664b60 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -126,7 +126,8 @@ class MicroIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			# nothing is left to send in the reset cycle after the last word
+			self.valid_out.eq(markers.valid_out & (auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
-- 
2.43.0


From 8da9d64cbc99181fb7997aeed6785e623455dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 11/36] fix: liblj92 keeps the two cached rows of a
 multi-component scan apart

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 665c504..8e84aa4 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -665,7 +665,7 @@ int lj92_open(lj92* lj,
         else {
             self->rowcache = rowcache;
             self->outrow[0] = rowcache;
-            self->outrow[1] = &rowcache[self->x];
+            self->outrow[1] = &rowcache[self->x * self->components];
         }
     }
 
-- 
2.43.0


From c2ffbcde7c7f3f5c0b667a6eeef7b1efcd2ffc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 12/36] fix: liblj92 predicts each component from its own left
 neighbour, also with predictor 6

---
 liblj92/lj92.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 8e84aa4..409a6a2 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -511,7 +511,7 @@ static int parseScan(ljp* self) {
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
-    if (pred==6) return parsePred6(self); // Fast path
+    if (pred==6 && self->components==1) return parsePred6(self); // Fast path
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
@@ -536,6 +536,7 @@ static int parseScan(ljp* self) {
                     Px = lastrow[c];  // Use value above for first pixel in row
                 } else {
                     int prev_colx = (col - 1) * self->components;
+                    left = thisrow[prev_colx + c];
    
                     switch (pred) {
                         case 0:
-- 
2.43.0


From 598e0f7bc08d65977df70767d384506d62b9b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 13/36] fix: liblj92 codes and decodes category 16 as the
 standard says, without overrunning its histogram

---
 liblj92/lj92.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 409a6a2..37f8091 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -49,7 +49,7 @@ typedef struct _ljp {
     int skiplen; // Skip this many values after each row
     u16* linearize; // Linearization table
     int linlen;
-    int sssshist[16];
+    int sssshist[17];
 
     // Huffman table - only one supported, and probably needed
 #ifdef SLOW_HUFF
@@ -366,7 +366,7 @@ inline static int nextdiff(ljp* self) {
     cnt -= usedbits;
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
-    while (cnt < t) {
+    while (t < 16 && cnt < t) {
         next = *(u16*)&self->data[ix];
         int one = next&0xFF;
         int two = next>>8;
@@ -378,12 +378,17 @@ inline static int nextdiff(ljp* self) {
             cnt -= 8;
         } else if (two==0xFF) ix++;
     }
-    cnt -= t;
-    int diff = b >> cnt;
-    int vt = 1<<(t-1);
-    if (diff < vt) {
-        vt = (-1 << t) + 1;
-        diff += vt;
+    int diff;
+    if (t == 16) {
+        diff = 32768; // Has no additional bits
+    } else {
+        cnt -= t;
+        diff = b >> cnt;
+        int vt = 1<<(t-1);
+        if (diff < vt) {
+            vt = (-1 << t) + 1;
+            diff += vt;
+        }
     }
     keepbitsmask = (1 << cnt)-1;
     self->b = b & keepbitsmask;
@@ -768,7 +773,7 @@ int frequencyScan(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff; // Modulo 65536
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         self->hist[ssss]++;
@@ -1058,7 +1063,7 @@ int writeBody(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
+        diff = (int16_t)diff; // Modulo 65536
         int ssss = 32 - __builtin_clz(abs(diff));
         if (diff==0) ssss=0;
         //printf("%d %d %d %d %d\n",col,row,Px,diff,ssss);
@@ -1067,6 +1072,7 @@ int writeBody(lje* self) {
         int huffcode = self->huffsym[ssss];
         int huffenc = self->huffenc[huffcode];
         int huffbits = self->huffbits[huffcode];
+        if (ssss==16) ssss=0; // -32768 has no additional bits
         bitcount += huffbits + ssss;
 
         int vt = ssss>0?(1<<(ssss-1)):0;
-- 
2.43.0


From 5597ad4a05a951a879baa88db959681a45c2dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 14/36] fix: liblj92 builds its code table from the
 delinearized samples it encodes

---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 37f8091..e6ececc 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -751,14 +751,14 @@ int frequencyScan(lje* self) {
     int maxval = (1 << self->bitdepth);
     while (pixcount--) {
         uint16_t p = *pixel;
-        /* if (self->delinearize) {
+        if (self->delinearize) {
             if (p>=self->delinearizeLength) {
                 free(rowcache);
                 return LJ92_ERROR_TOO_WIDE;
             }
             p = self->delinearize[p];
         }
-        if (p>=maxval) {
+        /* if (p>=maxval) {
             free(rowcache);
             return LJ92_ERROR_TOO_WIDE;
         } */
-- 
2.43.0


From d09c245c9a196e7c6c8812ab2261cde78d7a3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 15/36] fix: liblj92 decodes the last samples from bits it has
 already read ahead

---
 liblj92/lj92.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index e6ececc..8a684f3 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -344,11 +344,9 @@ inline static int nextdiff(ljp* self) {
     int cnt = self->cnt;
     int huffbits = self->huffbits;
     int ix = self->ix;
-    int next;
     while (cnt < huffbits) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
+        int one = ix<self->datalen ? self->data[ix] : 0;
+        int two = ix+1<self->datalen ? self->data[ix+1] : 0;
         b = (b<<16)|(one<<8)|two;
         cnt += 16;
         ix += 2;
@@ -367,9 +365,8 @@ inline static int nextdiff(ljp* self) {
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
     while (t < 16 && cnt < t) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
+        int one = ix<self->datalen ? self->data[ix] : 0;
+        int two = ix+1<self->datalen ? self->data[ix+1] : 0;
         b = (b<<16)|(one<<8)|two;
         cnt += 16;
         ix += 2;
@@ -401,6 +398,11 @@ inline static int nextdiff(ljp* self) {
     return diff;
 }
 
+// More bits used than there are? (bits that are read ahead are not used yet)
+inline static int exhausted(ljp* self) {
+    return self->ix - self->cnt/8 > self->datalen;
+}
+
 static int parsePred6(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     self->ix = self->scanstart;
@@ -436,7 +438,7 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen) return ret;
+    if (exhausted(self)) return ret;
     --write;
     int rowcount = self->x-1;
     while (rowcount--) {
@@ -451,7 +453,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen) return ret;
+        if (exhausted(self)) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
@@ -476,7 +478,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (self->ix >= self->datalen) break;
+        if (exhausted(self)) break;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -503,7 +505,7 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (self->ix >= self->datalen) break;
+        if (exhausted(self)) break;
     }
     if (c >= pixels) ret = LJ92_ERROR_NONE;
     return ret;
-- 
2.43.0


From 81ce4e1e8241e2d49341f526168eb18bb9ac5ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 16/36] fix: liblj92 honours a write length of one for the
 first sample

---
 liblj92/lj92.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 8a684f3..d8a7a2b 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -439,7 +439,10 @@ static int parsePred6(ljp* self) {
     thisrow[col++] = left;
     out[c++] = linear;
     if (exhausted(self)) return ret;
-    --write;
+    if (--write==0) {
+        out += self->skiplen;
+        write = self->writelen;
+    }
     int rowcount = self->x-1;
     while (rowcount--) {
         diff = nextdiff(self);
-- 
2.43.0


From 0a373035ab29e4d25976c8c85bb1ac56e3edb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 17/36] fix: the host driver reads the huffman entry of the
 largest category too

---
 software/src/core_axi_lite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/software/src/core_axi_lite.cpp b/software/src/core_axi_lite.cpp
index 656daae..bab9647 100644
--- a/software/src/core_axi_lite.cpp
+++ b/software/src/core_axi_lite.cpp
@@ -35,7 +35,7 @@ vector<string> CoreAXILite::get_ssss()
     // get ssss codes from axi lite
     vector<uint64_t> ssss_codes;
     uint64_t code = 0;
-    for(int i=0; i<2*bit_depth; i++){
+    for(int i=0; i<2*(bit_depth+1); i++){
         if(i%2==0){
             code = __get(SSSS_OFFSET+i);
         } else {
@@ -45,7 +45,7 @@ vector<string> CoreAXILite::get_ssss()
     }
     // get ssss info form them
     vector<string> ssss;
-    for(int i=0; i<bit_depth; i++) {
+    for(int i=0; i<=bit_depth; i++) {
         uint32_t code_length = (ssss_codes[i] >> (16+bit_depth));
         uint32_t mask = pow(2, code_length) - 1;
         uint32_t ssss_code = 0;
-- 
2.43.0


From a68e62d0274ceaf878e3361658ac6edad9e837de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 18/36] fix: a frame cut before its first output word gets its
 markers and the design restarts

---
 migen_src/markers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..bff9987 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -96,7 +96,8 @@ class Markers(Elaboratable):
 
             with m.State("IDLE"):
                 m.d.sync += counter.eq(8)
-                with m.If(self.valid_in):
+                # a frame cut before its first word is marked as well
+                with m.If(self.valid_in | self.force_end_in):
                     m.next = "STARING_MARKER"
 
             with m.State("STARING_MARKER"):
-- 
2.43.0


From 42a1df163beaabe5a235799fbe91bd79de85b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 19/36] fix: the markers stage does not swallow an end-marked
 word offered before the frame data starts

---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index bff9987..d19334a 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
-- 
2.43.0


From 8f67461e70eedd333573e8e500bea16f6a6605f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 20/36] fix: writing the upper half of a huffman table entry
 stores the written value

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index daef1ca..d4a0e49 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start-32:end-32])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
-- 
2.43.0


From 5edef9a12bf44c814cc20b058fb1977d29cc7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 21/36] fix: axihp_writer issues no burst while fifteen are
 unconfirmed, so its counter cannot wrap

---
 migen_src/axihp_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 03fdbc9..01e6ee8 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -98,7 +98,7 @@ class AxiHPWriter(Elaboratable):
 		# idle phase
 		with m.If(awvalid==0):
 			# writer enabled & address available & below max
-			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0)):
+			with m.If((self.enable==1) & (self.addr_empty==0) & (active[3]==0) & (unconf!=15)):
 				m.d.sync += awvalid.eq(1)
 
 		# active phase
-- 
2.43.0


From cbf4b1f2eb742a2f42b89c4a9426c5d477405aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 22/36] fix: axihp_writer takes the responses of issued bursts
 also after it has been disabled

---
 migen_src/axihp_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 01e6ee8..1422a6e 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -156,8 +156,8 @@ class AxiHPWriter(Elaboratable):
 
 		# idle phase
 		with m.If(bready==0):
-			# writer enabled
-			with m.If(self.enable):
+			# writer enabled or responses missing
+			with m.If((self.enable==1) | (unconf!=0)):
 				m.d.sync += bready.eq(1)
 
 		# active phase
-- 
2.43.0


From ecc87b1fda7827b4e7a1d7254fe3333902c92745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 23/36] fix: b16_b40 keeps its fill state with its buffers when
 the frame logic resets

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 0d837a9..fb573fa 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
-- 
2.43.0


From 1a37baab13f64684961fc16f7a7eee5a49c00af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 24/36] fix: liblj92 does not write the last bytes of a full
 output buffer behind it

---
 liblj92/lj92.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index d8a7a2b..1a32c37 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -1144,7 +1144,12 @@ int writeBody(lje* self) {
             row++;
         }
     }
-    // Flush the final bits
+    // Flush the final bits, if they and the end marker still fit
+    if(w > self->encodedLength - 4)
+    {
+        free(rowcache);
+        return LJ92_ERROR_ENCODER;
+    }
     if (nextbits<8) {
         out[w++] = next;
         if (next==0xff) out[w++] = 0x0;
-- 
2.43.0


From 27ac33e47d6dbb830dc1c2cd4c91b9bc6db93312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 25/36] fix: liblj92 reports every sample outside the
 linearization table

---
 liblj92/lj92.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 1a32c37..0aa577a 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -432,9 +432,10 @@ static int parsePred6(ljp* self) {
     Px = 1 << (self->bits-1);
     left = Px + diff;
     left = (u16) (left%65536);
-    if (self->linearize)
+    if (self->linearize) {
+        if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
         linear = self->linearize[left];
-    else
+    } else
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
@@ -449,9 +450,10 @@ static int parsePred6(ljp* self) {
         Px = left;
         left = Px + diff;
         left = (u16) (left%65536);
-        if (self->linearize)
+        if (self->linearize) {
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
-        else
+        } else
             linear = left;
         thisrow[col++] = left;
         out[c++] = linear;
@@ -474,7 +476,7 @@ static int parsePred6(ljp* self) {
         left = Px + diff;
         left = (u16) (left%65536);
         if (self->linearize) {
-            if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
         } else
             linear = left;
@@ -494,7 +496,7 @@ static int parsePred6(ljp* self) {
             left = (u16) (left%65536);
             //printf("%d %d %d %d %d %x\n",col,diff,left,lastrow[col],lastrow[col-1],&lastrow[col]);
             if (self->linearize) {
-                if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                 linear = self->linearize[left];
             } else
                 linear = left;
@@ -582,7 +584,7 @@ static int parseScan(ljp* self) {
                 //printf("%d %d %d\n",c,diff,left);
                 int linear;
                 if (self->linearize) {
-                    if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                    if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                     linear = self->linearize[left];
                 } else
                     linear = left;
-- 
2.43.0


From d339a34849bb5991bb5dfc49a7d0d27d18e63684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 26/36] fix: recognise the forced end marker as the core leaves
 it in memory

---
 software/src/xilinx_test.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index b284358..ddba00e 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -259,7 +259,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     uint32_t offset = size + 16;
     for(int i=0; i<128; i++) {
         if(*((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFFFFFF ||
-           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == __builtin_bswap32(0xFFFEFFFE)) {
+           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFEFFFE) {
             break;
         }
         offset++;
@@ -268,7 +268,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     bool found = true;
     for(int i=0; i<4; i++) {
         if(start_addr[i] != 0xFFFFFFFF &&
-           start_addr[i] != __builtin_bswap32(0xFFFEFFFE)) {
+           start_addr[i] != 0xFFFEFFFE) {
             log("No marker found.");
             found = false;
             break;
@@ -277,7 +277,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     if(found){
         if(start_addr[0] == 0xFFFFFFFF)
             log("normal marker found - offset is " + to_string((offset-size-16)) + ".");
-        if(start_addr[0] == __builtin_bswap32(0xFFFEFFFE))
+        if(start_addr[0] == 0xFFFEFFFE)
             log("force marker found - offset is " + to_string((offset-size-16)) + ".");
     }
 }
-- 
2.43.0


From 8cc05c0879a0ac7d7d0602e01b78980fd4cd0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 27/36] fix: compare the last byte of an odd-length reference

---
 software/src/xilinx_test.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index ddba00e..b6b133d 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -305,7 +305,7 @@ void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
     if(!failed) {
         volatile uint8_t* core_8 = ((uint8_t*)v_dest_addr) + 16;
         volatile uint8_t* lj92_8 = (uint8_t*)lj92_struct.pointer;
-        for(int i=lj92_struct.length-10; i<lj92_struct.length; i++) {
+        for(int i=lj92_struct.length-10; i<divisible_2(lj92_struct.length); i++) {
             if(core_8[i] != lj92_8[i]) {
                 log("Validation failed at byte: " + to_string(i));
 
-- 
2.43.0


From 4f6be4b854f59717d3cd2e9f1c54fe0307544d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 28/36] Revert "fix: compare the last byte of an odd-length
 reference"

This reverts commit 8cc05c0879a0ac7d7d0602e01b78980fd4cd0476.
---
 software/src/xilinx_test.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index b6b133d..ddba00e 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -305,7 +305,7 @@ void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
     if(!failed) {
         volatile uint8_t* core_8 = ((uint8_t*)v_dest_addr) + 16;
         volatile uint8_t* lj92_8 = (uint8_t*)lj92_struct.pointer;
-        for(int i=lj92_struct.length-10; i<divisible_2(lj92_struct.length); i++) {
+        for(int i=lj92_struct.length-10; i<lj92_struct.length; i++) {
             if(core_8[i] != lj92_8[i]) {
                 log("Validation failed at byte: " + to_string(i));
 
-- 
2.43.0


From f4de98505c6de5130a395c71fdc56c8969650274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 29/36] Revert "fix: recognise the forced end marker as the
 core leaves it in memory"

This reverts commit d339a34849bb5991bb5dfc49a7d0d27d18e63684.
---
 software/src/xilinx_test.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index ddba00e..b284358 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -259,7 +259,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     uint32_t offset = size + 16;
     for(int i=0; i<128; i++) {
         if(*((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFFFFFF ||
-           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFEFFFE) {
+           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == __builtin_bswap32(0xFFFEFFFE)) {
             break;
         }
         offset++;
@@ -268,7 +268,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     bool found = true;
     for(int i=0; i<4; i++) {
         if(start_addr[i] != 0xFFFFFFFF &&
-           start_addr[i] != 0xFFFEFFFE) {
+           start_addr[i] != __builtin_bswap32(0xFFFEFFFE)) {
             log("No marker found.");
             found = false;
             break;
@@ -277,7 +277,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     if(found){
         if(start_addr[0] == 0xFFFFFFFF)
             log("normal marker found - offset is " + to_string((offset-size-16)) + ".");
-        if(start_addr[0] == 0xFFFEFFFE)
+        if(start_addr[0] == __builtin_bswap32(0xFFFEFFFE))
             log("force marker found - offset is " + to_string((offset-size-16)) + ".");
     }
 }
-- 
2.43.0


From 78131d0ffa438c9142ca8f635cc08ecebdd5f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 30/36] fix: beta_integration_fullaxi keeps its DMA state and
 buffers when the core restarts after a frame

---
 migen_src/beta_integration_fullaxi.py | 34 ++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 8075a6a..a9a3b45 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -46,21 +46,33 @@ class BetaIntegrationFullAxi(Elaboratable):
 
 		m = Module()
 
+		# only the core restarts after a frame
+		full = DomainRenamer("full")
+
 		m.submodules.top = top = self.top
 
-		m.submodules.address_gen_read = address_gen_read = self.address_gen_read
-		m.submodules.address_gen_write = address_gen_write = self.address_gen_write
+		address_gen_read = self.address_gen_read
+		m.submodules.address_gen_read = full(address_gen_read)
+		address_gen_write = self.address_gen_write
+		m.submodules.address_gen_write = full(address_gen_write)
 
-		m.submodules.axihp_reader = axihp_reader = self.axihp_reader
-		m.submodules.axihp_writer = axihp_writer = self.axihp_writer
+		axihp_reader = self.axihp_reader
+		m.submodules.axihp_reader = full(axihp_reader)
+		axihp_writer = self.axihp_writer
+		m.submodules.axihp_writer = full(axihp_writer)
 
-		m.submodules.b64_b32 = b64_b32 = self.b64_b32
-		m.submodules.b16_b64 = b16_b64 = self.b16_b64
+		b64_b32 = self.b64_b32
+		m.submodules.b64_b32 = full(b64_b32)
+		b16_b64 = self.b16_b64
+		m.submodules.b16_b64 = full(b16_b64)
 		
-		m.submodules.dma_axi_lite = dma_axi_lite = self.dma_axi_lite
+		dma_axi_lite = self.dma_axi_lite
+		m.submodules.dma_axi_lite = full(dma_axi_lite)
 
-		m.submodules.reader_fifo = reader_fifo = self.reader_fifo
-		m.submodules.writer_fifo = writer_fifo = self.writer_fifo
+		reader_fifo = self.reader_fifo
+		m.submodules.reader_fifo = full(reader_fifo)
+		writer_fifo = self.writer_fifo
+		m.submodules.writer_fifo = full(writer_fifo)
 
 
 		counter_read = Signal(32)
@@ -78,13 +90,13 @@ class BetaIntegrationFullAxi(Elaboratable):
 			with m.If(counter_read==196608):
 				m.d.comb += read_end.eq(1)
 			with m.Else():
-				m.d.sync += counter_read.eq(counter_read + 1)
+				m.d.full += counter_read.eq(counter_read + 1)
 
 		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
 			with m.If(counter_write==131072):
 				m.d.comb += write_end.eq(1)
 			with m.Else():
-				m.d.sync += counter_write.eq(counter_write + 1)
+				m.d.full += counter_write.eq(counter_write + 1)
 
 		# dma_axi_lite
 		m.d.comb += [
-- 
2.43.0


From e0477eeed6d736ce323f53d933207745953adb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 31/36] fix: generated Verilog has its clock, reset and all
 input ports

---
 migen_src/b16_b40.py                         | 2 +-
 migen_src/b64_b32_2.py                       | 2 +-
 migen_src/beta_integration.py                | 2 +-
 migen_src/beta_integration_axistream.py      | 3 ++-
 migen_src/beta_integration_fifo_axistream.py | 3 ++-
 migen_src/beta_integration_fifo_lvds.py      | 3 ++-
 migen_src/beta_integration_fullaxi.py        | 3 ++-
 migen_src/clk_domains.py                     | 5 +++++
 migen_src/core_axi_lite.py                   | 2 +-
 migen_src/debug_module.py                    | 2 +-
 migen_src/integration_1.py                   | 6 +++++-
 migen_src/integration_2.py                   | 3 ++-
 migen_src/integration_3.py                   | 3 ++-
 migen_src/integration_3_axi_stream.py        | 3 ++-
 migen_src/markers.py                         | 2 +-
 migen_src/micro_integration.py               | 5 ++++-
 migen_src/micro_integration_axistream.py     | 3 ++-
 migen_src/predictor_p1_c4_px4.py             | 2 +-
 migen_src/register_file.py                   | 2 +-
 19 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index fb573fa..cbba589 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -161,4 +161,4 @@ class B16B40(Elaboratable):
 
 if __name__ == "__main__":
     d = B16B40()
-    main(d, ports=d.ios)
\ No newline at end of file
+    main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/b64_b32_2.py b/migen_src/b64_b32_2.py
index b012ea0..497c727 100644
--- a/migen_src/b64_b32_2.py
+++ b/migen_src/b64_b32_2.py
@@ -131,4 +131,4 @@ class B64B32_2(Elaboratable):
 
 if __name__ == "__main__":
     d = B64B32_2()
-    main(d, ports=d.ios)
\ No newline at end of file
+    main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index bf14bad..eb1563a 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -138,4 +138,4 @@ class BetaIntegration(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegration()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_axistream.py b/migen_src/beta_integration_axistream.py
index 0fa1736..db2386f 100644
--- a/migen_src/beta_integration_axistream.py
+++ b/migen_src/beta_integration_axistream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import beta_integration
+import clk_domains
 
 class BetaIntegrationAxiStream(Elaboratable):
 
@@ -58,4 +59,4 @@ class BetaIntegrationAxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationAxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_fifo_axistream.py b/migen_src/beta_integration_fifo_axistream.py
index bac093a..ffb9a91 100644
--- a/migen_src/beta_integration_fifo_axistream.py
+++ b/migen_src/beta_integration_fifo_axistream.py
@@ -4,6 +4,7 @@ from nmigen.back import *
 from math import log, ceil
 import beta_integration
 import b64_b32_2
+import clk_domains
 
 class BetaIntegrationFIFOAxiStream(Elaboratable):
 
@@ -64,4 +65,4 @@ class BetaIntegrationFIFOAxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationFIFOAxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_fifo_lvds.py b/migen_src/beta_integration_fifo_lvds.py
index 4330b0f..82f39e6 100644
--- a/migen_src/beta_integration_fifo_lvds.py
+++ b/migen_src/beta_integration_fifo_lvds.py
@@ -5,6 +5,7 @@ from math import log, ceil
 import beta_integration
 import b64_b32_2
 import b16_b40
+import clk_domains
 
 class BetaIntegrationFIFOLVDS(Elaboratable):
 
@@ -72,4 +73,4 @@ class BetaIntegrationFIFOLVDS(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationFIFOLVDS()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index a9a3b45..914f3ad 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -7,6 +7,7 @@ import axihp_reader, axihp_writer
 import b64_b32, b16_b64
 import dma_axi_lite
 import axihp_fifo
+import clk_domains
 
 # AXI_Reader -> AXI_FIFO -> B64B32 -> LJ92 -> B16B64 -> AXI_FIFO -> AXI_Writer
 
@@ -189,4 +190,4 @@ class BetaIntegrationFullAxi(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationFullAxi()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/clk_domains.py b/migen_src/clk_domains.py
index e79cb0c..7d27025 100644
--- a/migen_src/clk_domains.py
+++ b/migen_src/clk_domains.py
@@ -4,6 +4,11 @@ accessed = False
 FULL = ClockDomain("full")
 CORE = ClockDomain("sync")
 
+# ports of a top level using these domains: the clock and reset of FULL, and
+# the reset of CORE when the design does not drive it by itself.
+ios = [FULL.clk, FULL.rst]
+core_ios = ios + [CORE.rst]
+
 def load_clk(m):
 
     global accessed
diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index d4a0e49..05257f8 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -428,4 +428,4 @@ if __name__ == "__main__":
 		"axi_lite_debug": True,
 	}
 	d = CoreAxiLite(config, constraints.Constraints())
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/debug_module.py b/migen_src/debug_module.py
index d403cb1..9f44ca9 100644
--- a/migen_src/debug_module.py
+++ b/migen_src/debug_module.py
@@ -56,4 +56,4 @@ class DebugModule(Elaboratable):
 
 if __name__ == "__main__":
 	d = DebugModule()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/integration_1.py b/migen_src/integration_1.py
index abb3394..26dd86b 100644
--- a/migen_src/integration_1.py
+++ b/migen_src/integration_1.py
@@ -6,6 +6,7 @@ import difference, normalize, encode, merge, signals
 import constraints
 import predictor_p1_c4_px4, predictor_p1_c4_pix1_2
 import core_axi_lite, register_file, force_end
+import clk_domains
 
 class Integration1(Elaboratable):
 
@@ -56,6 +57,9 @@ class Integration1(Elaboratable):
 			[self.enc_out, self.enc_out_ctr] + \
 			[self.valid_in, self.valid_out] + \
 			[self.end_out, self.fend_out]
+
+		if self.axi_lite:
+			self.ios += self.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
@@ -178,4 +182,4 @@ if __name__ == "__main__":
 	}
 	cons = constraints.Constraints()
 	d = Integration1(config, cons)
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index 7911a05..79ab87e 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -6,6 +6,7 @@ import integration_1
 import converter_fifo, converter, lj92_pipeline_fifo
 import constraints
 import config
+import clk_domains
 
 class Integration2(Elaboratable):
 
@@ -132,4 +133,4 @@ if __name__ == "__main__":
 	}
 	cons = constraints.Constraints()
 	d = Integration2(config, cons)
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/integration_3.py b/migen_src/integration_3.py
index c43e16b..1651b78 100644
--- a/migen_src/integration_3.py
+++ b/migen_src/integration_3.py
@@ -5,6 +5,7 @@ from math import log, ceil
 import vbits_to_cbits
 import integration_2
 import constraints
+import clk_domains
 
 class Integration3(Elaboratable):
 
@@ -94,4 +95,4 @@ if __name__ == "__main__":
 	}
 	cons = constraints.Constraints()
 	d = Integration3(config, cons)
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/integration_3_axi_stream.py b/migen_src/integration_3_axi_stream.py
index 1e3a9bf..066c051 100644
--- a/migen_src/integration_3_axi_stream.py
+++ b/migen_src/integration_3_axi_stream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import integration_3, constraints
+import clk_domains
 
 class Integration3AxiStream(Elaboratable):
 
@@ -72,4 +73,4 @@ class Integration3AxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = Integration3AxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/markers.py b/migen_src/markers.py
index d19334a..8b61055 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -51,7 +51,7 @@ class Markers(Elaboratable):
         self.ios = \
             [self.valid_in, self.valid_out, self.o_busy, self.i_busy] + \
             [self.data_out, self.data_in] + \
-            [self.end_in, self.end_out]
+            [self.end_in, self.end_out, self.force_end_in]
 
     def elaborate(self, platform):
 
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 8664b60..d815040 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -51,6 +51,9 @@ class MicroIntegration(Elaboratable):
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.data_out, self.busy_in] + \
 			[self.pixel_in, self.nready]
+
+		if self.config['support_axi_lite']:
+			self.ios += self.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
@@ -136,4 +139,4 @@ class MicroIntegration(Elaboratable):
 
 if __name__ == "__main__":
 	d = MicroIntegration()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/micro_integration_axistream.py b/migen_src/micro_integration_axistream.py
index 12b7968..93533fe 100644
--- a/migen_src/micro_integration_axistream.py
+++ b/migen_src/micro_integration_axistream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import micro_integration
+import clk_domains
 
 class MicroIntegrationAxiStream(Elaboratable):
 
@@ -58,4 +59,4 @@ class MicroIntegrationAxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = MicroIntegrationAxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/predictor_p1_c4_px4.py b/migen_src/predictor_p1_c4_px4.py
index 210aea7..d555f3d 100644
--- a/migen_src/predictor_p1_c4_px4.py
+++ b/migen_src/predictor_p1_c4_px4.py
@@ -83,7 +83,7 @@ class PredictorP1C4Px4(Elaboratable):
 			[predic_out for predic_out in self.predics_out] + \
 			[pixel_out for pixel_out in self.pixels_out] + \
 			[pixel_in for pixel_in in self.pixels_in] + \
-			[self.valid_in, self.valid_out] + \
+			[self.valid_in, self.valid_out, self.new_row] + \
 			[self.end_in, self.end_out]
 
 	def elaborate(self, platform):
diff --git a/migen_src/register_file.py b/migen_src/register_file.py
index 97d96af..2c06be7 100644
--- a/migen_src/register_file.py
+++ b/migen_src/register_file.py
@@ -67,4 +67,4 @@ class RegisterFile(Elaboratable):
 
 if __name__ == "__main__":
 	m = RegisterFile()
-	main(m, ports=m.ios)
\ No newline at end of file
+	main(m, ports=m.ios + clk_domains.ios)
\ No newline at end of file
-- 
2.43.0


From 89e315e66bd680a2e40ddf4f1289207471e57b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 32/36] fix: integration_2's Verilog has its end of frame
 output

---
 migen_src/integration_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index 79ab87e..82e3511 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -42,7 +42,7 @@ class Integration2(Elaboratable):
 			[self.enc_out, self.enc_out_ctr] + \
 			[self.latch_output, self.nready] + \
 			[self.valid_in, self.valid_out] + \
-			[self.integration_1.fend_out]
+			[self.integration_1.fend_out, self.out_end]
 			
 	def elaborate(self, platform):
 
-- 
2.43.0


From 8446dec4d7dc3e8bfe5162b78041829873464675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 33/36] fix: verilog_src regenerated from the repaired sources

The files are the output of generate_verilog.py, with the directories taken out of the source attributes.
---
 verilog_src/address_generator.v               |    89 +-
 verilog_src/auto_reset.v                      |    40 +-
 verilog_src/axi_lite.v                        |   401 +-
 verilog_src/axihp_fifo.v                      |   464 +-
 verilog_src/axihp_reader.v                    |   415 +-
 verilog_src/axihp_writer.v                    |   673 +-
 verilog_src/b16_b40.v                         |   474 +-
 verilog_src/b16_b64.v                         |   548 +-
 verilog_src/b64_b32.v                         |  1208 +-
 verilog_src/b64_b32_2.v                       |   260 +-
 verilog_src/beta_integration.v                |  9256 +++++----
 verilog_src/beta_integration_axistream.v      |  9392 +++++----
 verilog_src/beta_integration_fifo_axistream.v |  9645 ++++++----
 verilog_src/beta_integration_fifo_lvds.v      | 10205 +++++-----
 verilog_src/beta_integration_fullaxi.v        | 15754 +++++++++-------
 verilog_src/converter.v                       |   523 +-
 verilog_src/converter_fifo.v                  |   680 +-
 verilog_src/core_axi_lite.v                   |  2008 +-
 verilog_src/debug_module.v                    |   172 +-
 verilog_src/delayer.v                         |    77 +-
 verilog_src/difference.v                      |   177 +-
 verilog_src/dma_axi_lite.v                    |  1098 +-
 verilog_src/encode.v                          |   333 +-
 verilog_src/fix_0xff.v                        |   464 +-
 verilog_src/fix_0xff2.v                       |  1134 +-
 verilog_src/force_end.v                       |    96 +-
 verilog_src/integration_1.v                   |  5141 +++--
 verilog_src/integration_2.v                   |  8937 ++++-----
 verilog_src/integration_3.v                   | 10137 +++++-----
 verilog_src/integration_3_axi_stream.v        | 10185 +++++-----
 verilog_src/lj92_pipeline_fifo.v              |   664 +-
 verilog_src/markers.v                         |   416 +-
 verilog_src/merge.v                           |   240 +-
 verilog_src/micro_integration.v               |  9662 ++++++----
 verilog_src/micro_integration_axistream.v     |  9814 ++++++----
 verilog_src/normalize.v                       |   574 +-
 verilog_src/predictor_p1_c4_pix1_2.v          |   422 +-
 verilog_src/predictor_p1_c4_px4.v             |   388 +-
 verilog_src/register_file.v                   |    88 +-
 verilog_src/reverser.v                        |    80 +-
 verilog_src/signals.v                         |   189 +-
 verilog_src/vbits_to_cbits.v                  |  1097 +-
 42 files changed, 70139 insertions(+), 53481 deletions(-)

diff --git a/verilog_src/address_generator.v b/verilog_src/address_generator.v
index ff4e3d0..dc3ae81 100644
--- a/verilog_src/address_generator.v
+++ b/verilog_src/address_generator.v
@@ -1,91 +1,120 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(address_latch, rst, clk, address_o, address_valid, starting_address);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(address_valid, address_latch, starting_address, clk, rst, address_o);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
+  (* src = "address_generator.py:58" *)
   wire [32:0] \$1 ;
+  (* src = "address_generator.py:58" *)
   wire [32:0] \$2 ;
+  (* src = "address_generator.py:64" *)
   wire [32:0] \$4 ;
+  (* src = "address_generator.py:64" *)
   wire [32:0] \$5 ;
-  (* src = "address_generator.py:35" *)
-  reg [31:0] \$next\address_o ;
-  (* src = "address_generator.py:36" *)
-  reg \$next\address_valid ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg \$next\fsm_state ;
   (* src = "address_generator.py:37" *)
   input address_latch;
-  (* init = 32'd0 *)
+  wire address_latch;
   (* src = "address_generator.py:35" *)
   output [31:0] address_o;
   reg [31:0] address_o = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "address_generator.py:35" *)
+  reg [31:0] \address_o$next ;
   (* src = "address_generator.py:36" *)
   output address_valid;
   reg address_valid = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "address_generator.py:36" *)
+  reg \address_valid$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 1'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire clk;
+  (* src = "address_generator.py:50" *)
   reg fsm_state = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "address_generator.py:50" *)
+  reg \fsm_state$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "address_generator.py:39" *)
   input [31:0] starting_address;
+  wire [31:0] starting_address;
   assign \$2  = address_o + (* src = "address_generator.py:58" *) 5'h10;
   assign \$5  = address_o + (* src = "address_generator.py:64" *) 5'h10;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      address_valid <= \$next\address_valid ;
+    address_valid <= \address_valid$next ;
   always @(posedge clk)
-      address_o <= \$next\address_o ;
+    address_o <= \address_o$next ;
   always @* begin
-    \$next\address_o  = address_o;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \address_o$next  = address_o;
+    (* src = "address_generator.py:50" *)
     casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
       1'h0:
         begin
-          \$next\address_o  = starting_address;
+          \address_o$next  = starting_address;
+          (* src = "address_generator.py:57" *)
           casez (address_latch)
+            /* src = "address_generator.py:57" */
             1'h1:
-                \$next\address_o  = \$1 [31:0];
+                \address_o$next  = \$2 [31:0];
           endcase
         end
+      /* src = "address_generator.py:61" */
+      /* \nmigen.decoding  = "LOOP/1" */
       1'h1:
+          (* src = "address_generator.py:63" *)
           casez (address_latch)
+            /* src = "address_generator.py:63" */
             1'h1:
-                \$next\address_o  = \$4 [31:0];
+                \address_o$next  = \$5 [31:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\address_o  = 32'd0;
+          \address_o$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\address_valid  = address_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \address_valid$next  = address_valid;
+    (* src = "address_generator.py:50" *)
     casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
       1'h0:
-          \$next\address_valid  = 1'h1;
+          \address_valid$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\address_valid  = 1'h0;
+          \address_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "address_generator.py:50" *)
     casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
       1'h0:
+          (* src = "address_generator.py:57" *)
           casez (address_latch)
+            /* src = "address_generator.py:57" */
             1'h1:
-                \$next\fsm_state  = 1'h1;
+                \fsm_state$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 1'h0;
+          \fsm_state$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
diff --git a/verilog_src/auto_reset.v b/verilog_src/auto_reset.v
index cf6b933..f31e456 100644
--- a/verilog_src/auto_reset.v
+++ b/verilog_src/auto_reset.v
@@ -1,46 +1,60 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(hs1_in, hs2_in, reset_out, clk, rst, end_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$2  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$2 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
diff --git a/verilog_src/axi_lite.v b/verilog_src/axi_lite.v
index 2907741..88d624f 100644
--- a/verilog_src/axi_lite.v
+++ b/verilog_src/axi_lite.v
@@ -1,313 +1,260 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_axi_ri__arid, s_axi_wi__awvalid, s_axi_wi__awid, s_axi_aclk, s_axi_areset_n, m_axi_ri__arready, m_axi_ri__rdata, m_axi_ri__rresp, m_axi_ri__rvalid, s_axi_ri__araddr, s_axi_ri__arprot, s_axi_ri__rready, m_axi_wi__awready, m_axi_wi__wready, m_axi_wi__bresp, m_axi_wi__bvalid, s_axi_wi__awaddr, s_axi_wi__awprot, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__wvalid, s_axi_wi__bready, rst, clk, s_axi_ro__arready, s_axi_ro__rid, s_axi_ro__rdata, s_axi_ro__rlast, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bid, s_axi_wo__bresp, s_axi_wo__bvalid, m_axi_ro__araddr, m_axi_ro__arprot, m_axi_ro__arvalid, m_axi_ro__rready, m_axi_wo__awaddr, m_axi_wo__awprot, m_axi_wo__awvalid, m_axi_wo__wdata, m_axi_wo__wstrb, m_axi_wo__wvalid, m_axi_wo__bready, m_axi_aclk, m_axi_areset_n, s_axi_ri__arvalid);
-  (* src = "axi_lite.py:53" *)
-  reg \$next\m_axi_aclk ;
-  (* src = "axi_lite.py:54" *)
-  reg \$next\m_axi_areset_n ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\m_axi_ro__araddr ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [2:0] \$next\m_axi_ro__arprot ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_ro__arvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_ro__rready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\m_axi_wo__awaddr ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [2:0] \$next\m_axi_wo__awprot ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__awvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__bready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\m_axi_wo__wdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [3:0] \$next\m_axi_wo__wstrb ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__wvalid ;
-  (* src = "axi_lite.py:97" *)
-  reg [11:0] \$next\rwid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__arready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\s_axi_ro__rdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [11:0] \$next\s_axi_ro__rid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__rlast ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_ro__rresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__rvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__awready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [11:0] \$next\s_axi_wo__bid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_wo__bresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__bvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__wready ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(s_axi_areset_n, s_axi_ro__arready, s_axi_ro__rid, s_axi_ro__rdata, s_axi_ro__rlast, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_ri__arid, s_axi_ri__araddr, s_axi_ri__arburst, s_axi_ri__arlen, s_axi_ri__arsize, s_axi_ri__arprot, s_axi_ri__arvalid, s_axi_ri__rready, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bid, s_axi_wo__bresp, s_axi_wo__bvalid, s_axi_wi__awid
+, s_axi_wi__awaddr, s_axi_wi__awburst, s_axi_wi__awlen, s_axi_wi__awsize, s_axi_wi__awprot, s_axi_wi__awvalid, s_axi_wi__wid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__wlast, s_axi_wi__wvalid, s_axi_wi__bready, m_axi_ri__arready, m_axi_ri__rdata, m_axi_ri__rresp, m_axi_ri__rvalid, m_axi_ro__araddr, m_axi_ro__arprot, m_axi_ro__arvalid, m_axi_ro__rready, m_axi_wi__awready
+, m_axi_wi__wready, m_axi_wi__bresp, m_axi_wi__bvalid, m_axi_wo__awaddr, m_axi_wo__awprot, m_axi_wo__awvalid, m_axi_wo__wdata, m_axi_wo__wstrb, m_axi_wo__wvalid, m_axi_wo__bready, m_axi_aclk, m_axi_areset_n, clk, rst, s_axi_aclk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
   (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire \$verilog_initial_trigger ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "axi_lite.py:53" *)
   output m_axi_aclk;
+  wire m_axi_aclk;
   (* src = "axi_lite.py:54" *)
   output m_axi_areset_n;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_areset_n;
+  (* src = "axi_lite.py:57" *)
   input m_axi_ri__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__arready;
+  (* src = "axi_lite.py:57" *)
   input [31:0] m_axi_ri__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_ri__rdata;
+  (* src = "axi_lite.py:57" *)
   input [1:0] m_axi_ri__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ri__rresp;
+  (* src = "axi_lite.py:57" *)
   input m_axi_ri__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__rvalid;
+  (* src = "axi_lite.py:58" *)
   output [31:0] m_axi_ro__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_ro__araddr;
+  (* src = "axi_lite.py:58" *)
   output [2:0] m_axi_ro__arprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_ro__arprot;
+  (* src = "axi_lite.py:58" *)
   output m_axi_ro__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ro__arvalid;
+  (* src = "axi_lite.py:58" *)
   output m_axi_ro__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ro__rready;
+  (* src = "axi_lite.py:59" *)
   input m_axi_wi__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__awready;
+  (* src = "axi_lite.py:59" *)
   input [1:0] m_axi_wi__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wi__bresp;
+  (* src = "axi_lite.py:59" *)
   input m_axi_wi__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__bvalid;
+  (* src = "axi_lite.py:59" *)
   input m_axi_wi__wready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__wready;
+  (* src = "axi_lite.py:60" *)
   output [31:0] m_axi_wo__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_wo__awaddr;
+  (* src = "axi_lite.py:60" *)
   output [2:0] m_axi_wo__awprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_wo__awprot;
+  (* src = "axi_lite.py:60" *)
   output m_axi_wo__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__awvalid;
+  (* src = "axi_lite.py:60" *)
   output m_axi_wo__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__bready;
+  (* src = "axi_lite.py:60" *)
   output [31:0] m_axi_wo__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_wo__wdata;
+  (* src = "axi_lite.py:60" *)
   output [3:0] m_axi_wo__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] m_axi_wo__wstrb;
+  (* src = "axi_lite.py:60" *)
   output m_axi_wo__wvalid;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire m_axi_wo__wvalid;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 12'h000 *)
+  wire rst;
   (* src = "axi_lite.py:97" *)
   reg [11:0] rwid = 12'h000;
+  (* src = "axi_lite.py:97" *)
+  reg [11:0] \rwid$next ;
   (* src = "axi_lite.py:43" *)
   input s_axi_aclk;
+  wire s_axi_aclk;
   (* src = "axi_lite.py:44" *)
   input s_axi_areset_n;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_areset_n;
+  (* src = "axi_lite.py:48" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "axi_lite.py:48" *)
+  input [1:0] s_axi_ri__arburst;
+  wire [1:0] s_axi_ri__arburst;
+  (* src = "axi_lite.py:48" *)
   input [11:0] s_axi_ri__arid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [11:0] s_axi_ri__arid;
+  (* src = "axi_lite.py:48" *)
+  input [3:0] s_axi_ri__arlen;
+  wire [3:0] s_axi_ri__arlen;
+  (* src = "axi_lite.py:48" *)
   input [2:0] s_axi_ri__arprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] s_axi_ri__arprot;
+  (* src = "axi_lite.py:48" *)
+  input [1:0] s_axi_ri__arsize;
+  wire [1:0] s_axi_ri__arsize;
+  (* src = "axi_lite.py:48" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "axi_lite.py:48" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "axi_lite.py:47" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "axi_lite.py:47" *)
   output [31:0] s_axi_ro__rdata;
-  (* init = 12'h000 *)
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "axi_lite.py:47" *)
   output [11:0] s_axi_ro__rid;
   reg [11:0] s_axi_ro__rid = 12'h000;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "axi_lite.py:47" *)
+  reg [11:0] \s_axi_ro__rid$next ;
+  (* src = "axi_lite.py:47" *)
   output s_axi_ro__rlast;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rlast;
+  (* src = "axi_lite.py:47" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "axi_lite.py:47" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "axi_lite.py:50" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "axi_lite.py:50" *)
+  input [1:0] s_axi_wi__awburst;
+  wire [1:0] s_axi_wi__awburst;
+  (* src = "axi_lite.py:50" *)
   input [11:0] s_axi_wi__awid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [11:0] s_axi_wi__awid;
+  (* src = "axi_lite.py:50" *)
+  input [3:0] s_axi_wi__awlen;
+  wire [3:0] s_axi_wi__awlen;
+  (* src = "axi_lite.py:50" *)
   input [2:0] s_axi_wi__awprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] s_axi_wi__awprot;
+  (* src = "axi_lite.py:50" *)
+  input [1:0] s_axi_wi__awsize;
+  wire [1:0] s_axi_wi__awsize;
+  (* src = "axi_lite.py:50" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "axi_lite.py:50" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "axi_lite.py:50" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "axi_lite.py:50" *)
+  input [11:0] s_axi_wi__wid;
+  wire [11:0] s_axi_wi__wid;
+  (* src = "axi_lite.py:50" *)
+  input s_axi_wi__wlast;
+  wire s_axi_wi__wlast;
+  (* src = "axi_lite.py:50" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "axi_lite.py:50" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "axi_lite.py:49" *)
   output s_axi_wo__awready;
-  (* init = 12'h000 *)
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "axi_lite.py:49" *)
   output [11:0] s_axi_wo__bid;
   reg [11:0] s_axi_wo__bid = 12'h000;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "axi_lite.py:49" *)
+  reg [11:0] \s_axi_wo__bid$next ;
+  (* src = "axi_lite.py:49" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "axi_lite.py:49" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "axi_lite.py:49" *)
   output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   always @(posedge clk)
-      s_axi_wo__bid <= \$next\s_axi_wo__bid ;
+    s_axi_wo__bid <= \s_axi_wo__bid$next ;
   always @(posedge clk)
-      s_axi_ro__rid <= \$next\s_axi_ro__rid ;
+    s_axi_ro__rid <= \s_axi_ro__rid$next ;
   always @(posedge clk)
-      rwid <= \$next\rwid ;
+    rwid <= \rwid$next ;
   always @* begin
-    \$next\rwid  = rwid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \rwid$next  = rwid;
+    (* src = "axi_lite.py:100" *)
     casez (s_axi_ri__arvalid)
+      /* src = "axi_lite.py:100" */
       1'h1:
-          \$next\rwid  = s_axi_ri__arid;
+          \rwid$next  = s_axi_ri__arid;
     endcase
+    (* src = "axi_lite.py:102" *)
     casez (s_axi_wi__awvalid)
+      /* src = "axi_lite.py:102" */
       1'h1:
-          \$next\rwid  = s_axi_wi__awid;
+          \rwid$next  = s_axi_wi__awid;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\rwid  = 12'h000;
+          \rwid$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\s_axi_ro__rid  = s_axi_ro__rid;
-    \$next\s_axi_ro__rid  = rwid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \s_axi_ro__rid$next  = rwid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\s_axi_ro__rid  = 12'h000;
+          \s_axi_ro__rid$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\m_axi_ro__araddr  = 32'd0;
-    \$next\m_axi_ro__araddr  = s_axi_ri__araddr;
-  end
-  always @* begin
-    \$next\m_axi_ro__arprot  = 3'h0;
-    \$next\m_axi_ro__arprot  = s_axi_ri__arprot;
-  end
-  always @* begin
-    \$next\m_axi_ro__arvalid  = 1'h0;
-    \$next\m_axi_ro__arvalid  = s_axi_ri__arvalid;
-  end
-  always @* begin
-    \$next\m_axi_ro__rready  = 1'h0;
-    \$next\m_axi_ro__rready  = s_axi_ri__rready;
-  end
-  always @* begin
-    \$next\s_axi_wo__awready  = 1'h0;
-    \$next\s_axi_wo__awready  = m_axi_wi__awready;
-  end
-  always @* begin
-    \$next\s_axi_wo__wready  = 1'h0;
-    \$next\s_axi_wo__wready  = m_axi_wi__wready;
-  end
-  always @* begin
-    \$next\s_axi_wo__bresp  = 2'h0;
-    \$next\s_axi_wo__bresp  = m_axi_wi__bresp;
-  end
-  always @* begin
-    \$next\s_axi_wo__bvalid  = 1'h0;
-    \$next\s_axi_wo__bvalid  = m_axi_wi__bvalid;
-  end
-  always @* begin
-    \$next\m_axi_wo__awaddr  = 32'd0;
-    \$next\m_axi_wo__awaddr  = s_axi_wi__awaddr;
-  end
-  always @* begin
-    \$next\m_axi_wo__awprot  = 3'h0;
-    \$next\m_axi_wo__awprot  = s_axi_wi__awprot;
-  end
-  always @* begin
-    \$next\s_axi_wo__bid  = s_axi_wo__bid;
-    \$next\s_axi_wo__bid  = rwid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \s_axi_wo__bid$next  = rwid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\s_axi_wo__bid  = 12'h000;
+          \s_axi_wo__bid$next  = 12'h000;
     endcase
   end
-  always @* begin
-    \$next\m_axi_wo__awvalid  = 1'h0;
-    \$next\m_axi_wo__awvalid  = s_axi_wi__awvalid;
-  end
-  always @* begin
-    \$next\m_axi_wo__wdata  = 32'd0;
-    \$next\m_axi_wo__wdata  = s_axi_wi__wdata;
-  end
-  always @* begin
-    \$next\m_axi_wo__wstrb  = 4'h0;
-    \$next\m_axi_wo__wstrb  = s_axi_wi__wstrb;
-  end
-  always @* begin
-    \$next\m_axi_wo__wvalid  = 1'h0;
-    \$next\m_axi_wo__wvalid  = s_axi_wi__wvalid;
-  end
-  always @* begin
-    \$next\m_axi_wo__bready  = 1'h0;
-    \$next\m_axi_wo__bready  = s_axi_wi__bready;
-  end
-  always @* begin
-    \$next\m_axi_aclk  = 1'h0;
-    \$next\m_axi_aclk  = s_axi_aclk;
-  end
-  always @* begin
-    \$next\m_axi_areset_n  = 1'h0;
-    \$next\m_axi_areset_n  = s_axi_areset_n;
-  end
-  always @* begin
-    \$next\s_axi_ro__arready  = 1'h0;
-    \$next\s_axi_ro__arready  = m_axi_ri__arready;
-  end
-  always @* begin
-    \$next\s_axi_ro__rdata  = 32'd0;
-    \$next\s_axi_ro__rdata  = m_axi_ri__rdata;
-  end
-  always @* begin
-    \$next\s_axi_ro__rlast  = 1'h0;
-    \$next\s_axi_ro__rlast  = 1'h1;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\s_axi_ro__rresp  = 2'h0;
-    \$next\s_axi_ro__rresp  = m_axi_ri__rresp;
-  end
-  always @* begin
-    \$next\s_axi_ro__rvalid  = 1'h0;
-    \$next\s_axi_ro__rvalid  = m_axi_ri__rvalid;
-  end
-  assign m_axi_wo__bready = \$next\m_axi_wo__bready ;
-  assign m_axi_wo__wvalid = \$next\m_axi_wo__wvalid ;
-  assign m_axi_wo__wstrb = \$next\m_axi_wo__wstrb ;
-  assign m_axi_wo__wdata = \$next\m_axi_wo__wdata ;
-  assign m_axi_wo__awvalid = \$next\m_axi_wo__awvalid ;
-  assign m_axi_wo__awprot = \$next\m_axi_wo__awprot ;
-  assign m_axi_wo__awaddr = \$next\m_axi_wo__awaddr ;
-  assign s_axi_wo__bvalid = \$next\s_axi_wo__bvalid ;
-  assign s_axi_wo__bresp = \$next\s_axi_wo__bresp ;
-  assign s_axi_wo__wready = \$next\s_axi_wo__wready ;
-  assign s_axi_wo__awready = \$next\s_axi_wo__awready ;
-  assign m_axi_ro__rready = \$next\m_axi_ro__rready ;
-  assign m_axi_ro__arvalid = \$next\m_axi_ro__arvalid ;
-  assign m_axi_ro__arprot = \$next\m_axi_ro__arprot ;
-  assign m_axi_ro__araddr = \$next\m_axi_ro__araddr ;
-  assign s_axi_ro__rvalid = \$next\s_axi_ro__rvalid ;
-  assign s_axi_ro__rresp = \$next\s_axi_ro__rresp ;
-  assign s_axi_ro__rlast = \$next\s_axi_ro__rlast ;
-  assign s_axi_ro__rdata = \$next\s_axi_ro__rdata ;
-  assign s_axi_ro__arready = \$next\s_axi_ro__arready ;
-  assign m_axi_areset_n = \$next\m_axi_areset_n ;
-  assign m_axi_aclk = \$next\m_axi_aclk ;
+  assign m_axi_wo__bready = s_axi_wi__bready;
+  assign m_axi_wo__wvalid = s_axi_wi__wvalid;
+  assign m_axi_wo__wstrb = s_axi_wi__wstrb;
+  assign m_axi_wo__wdata = s_axi_wi__wdata;
+  assign m_axi_wo__awvalid = s_axi_wi__awvalid;
+  assign m_axi_wo__awprot = s_axi_wi__awprot;
+  assign m_axi_wo__awaddr = s_axi_wi__awaddr;
+  assign s_axi_wo__bvalid = m_axi_wi__bvalid;
+  assign s_axi_wo__bresp = m_axi_wi__bresp;
+  assign s_axi_wo__wready = m_axi_wi__wready;
+  assign s_axi_wo__awready = m_axi_wi__awready;
+  assign m_axi_ro__rready = s_axi_ri__rready;
+  assign m_axi_ro__arvalid = s_axi_ri__arvalid;
+  assign m_axi_ro__arprot = s_axi_ri__arprot;
+  assign m_axi_ro__araddr = s_axi_ri__araddr;
+  assign s_axi_ro__rvalid = m_axi_ri__rvalid;
+  assign s_axi_ro__rresp = m_axi_ri__rresp;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign s_axi_ro__rlast = 1'h1;
+  assign s_axi_ro__rdata = m_axi_ri__rdata;
+  assign s_axi_ro__arready = m_axi_ri__arready;
+  assign m_axi_areset_n = s_axi_areset_n;
+  assign m_axi_aclk = s_axi_aclk;
 endmodule
 
diff --git a/verilog_src/axihp_fifo.v b/verilog_src/axihp_fifo.v
index 8f666dc..3710cd3 100644
--- a/verilog_src/axihp_fifo.v
+++ b/verilog_src/axihp_fifo.v
@@ -1,127 +1,98 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$11 ;
+(* \nmigen.hierarchy  = "top.fifo" *)
+module fifo(w_data, r_en, w_rdy, r_rdy, level, r_data, rst, clk, w_en);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire [5:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$15 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$16 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$18 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire [5:0] \$20 ;
-  wire \$22 ;
-  wire [5:0] \$24 ;
-  wire [5:0] \$25 ;
-  wire \$27 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$20 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$21 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$24 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [6:0] \$26 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [6:0] \$27 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$31 ;
-  wire \$33 ;
-  wire \$34 ;
-  wire \$37 ;
-  wire [6:0] \$39 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$35 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [6:0] \$37 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [6:0] \$38 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire [6:0] \$40 ;
-  wire \$42 ;
-  wire \$44 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire \$49 ;
-  wire \$52 ;
-  wire [6:0] \$54 ;
-  wire [6:0] \$55 ;
-  wire [5:0] \$6 ;
-  wire [5:0] \$7 ;
-  wire \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [4:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [64:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [5:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [4:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [4:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [4:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [64:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 5'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [4:0] consume = 5'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [64:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [64:0] dout;
-  (* init = 6'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [4:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [5:0] level;
   reg [5:0] level = 6'h00;
-  (* init = 5'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [5:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [4:0] produce = 5'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [4:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [64:0] rdport_storage_r_data;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [4:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [64:0] r_data;
+  wire [64:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [4:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [64:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$9  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$11  = we & (* src = "nmigen/lib/fifo.py:161" *) \$9 ;
-  assign \$13  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$15  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$17  = \$13  & (* src = "nmigen/lib/fifo.py:149" *) \$15 ;
-  assign \$20  = produce + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$22  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$25  = consume + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$27  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 6'h20;
-  assign \$29  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$31  = \$27  & (* src = "nmigen/lib/fifo.py:149" *) \$29 ;
-  assign \$34  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$34 ;
-  assign \$37  = \$31  & (* src = "nmigen/lib/fifo.py:177" *) \$33 ;
-  assign \$40  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$42  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$47  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$45  & (* src = "nmigen/lib/fifo.py:149" *) \$47 ;
-  assign \$44  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$49 ;
-  assign \$52  = \$42  & (* src = "nmigen/lib/fifo.py:179" *) \$44 ;
-  assign \$55  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:100" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [4:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [64:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [4:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [64:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [64:0] w_data;
+  wire [64:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [64:0] storage [31:0];
   initial begin
     storage[0] = 65'h00000000000000000;
@@ -158,223 +129,180 @@ module fifo(we, replace, re, rst, clk, writable, readable, dout, level, din);
     storage[31] = 65'h00000000000000000;
   end
   always @(posedge clk) begin
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = storage[\$next\rdport_storage_r_addr ];
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 5'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [4:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 65'h00000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$11 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
+  assign storage_r_data = storage[storage_r_addr];
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 6'h20;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\produce  = produce;
-    casez (\$17 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$19 [4:0];
+          \produce$next  = \$11 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 5'h00;
+          \produce$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 5'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 65'h00000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$13 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$24 [4:0];
+          \consume$next  = \$16 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 5'h00;
+          \consume$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\level  = level;
-    casez (\$37 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$24 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$39 [5:0];
+          \level$next  = \$27 [5:0];
     endcase
-    casez (\$52 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$35 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$54 [5:0];
+          \level$next  = \$38 [5:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 6'h00;
+          \level$next  = 6'h00;
     endcase
   end
-  assign \$6  = \$7 ;
-  assign \$19  = \$20 ;
-  assign \$24  = \$25 ;
-  assign \$39  = \$40 ;
-  assign \$54  = \$55 ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$11 ;
+  assign \$15  = \$16 ;
+  assign \$26  = \$27 ;
+  assign \$37  = \$38 ;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(end_in, data_in, read, replace, rst, clk, data_out, end_out, valid_out, writable, readable, writable16, readable16, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(data_out, end_in, end_out, valid_in, valid_out, writable, readable, writable16, readable16, read, clk, rst, data_in);
+  (* src = "axihp_fifo.py:54" *)
   wire \$1 ;
+  (* src = "axihp_fifo.py:55" *)
   wire \$3 ;
-  (* src = "axihp_fifo.py:11" *)
-  reg [63:0] \$next\data_out ;
-  (* src = "axihp_fifo.py:14" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [64:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "axihp_fifo.py:22" *)
-  reg \$next\readable ;
-  (* src = "axihp_fifo.py:25" *)
-  reg \$next\readable16 ;
-  (* src = "axihp_fifo.py:17" *)
-  reg \$next\valid_out ;
-  (* src = "axihp_fifo.py:21" *)
-  reg \$next\writable ;
-  (* src = "axihp_fifo.py:24" *)
-  reg \$next\writable16 ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "axihp_fifo.py:10" *)
   input [63:0] data_in;
+  wire [63:0] data_in;
   (* src = "axihp_fifo.py:11" *)
   output [63:0] data_out;
+  wire [63:0] data_out;
   (* src = "axihp_fifo.py:13" *)
   input end_in;
+  wire end_in;
   (* src = "axihp_fifo.py:14" *)
   output end_out;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [64:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [64:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire end_out;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [5:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [64:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [64:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "axihp_fifo.py:19" *)
   input read;
+  wire read;
   (* src = "axihp_fifo.py:22" *)
   output readable;
+  wire readable;
   (* src = "axihp_fifo.py:25" *)
   output readable16;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire readable16;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "axihp_fifo.py:16" *)
   input valid_in;
+  wire valid_in;
   (* src = "axihp_fifo.py:17" *)
   output valid_out;
+  wire valid_out;
   (* src = "axihp_fifo.py:21" *)
   output writable;
+  wire writable;
   (* src = "axihp_fifo.py:24" *)
   output writable16;
+  wire writable16;
   assign \$1  = fifo_level >= (* src = "axihp_fifo.py:54" *) 5'h10;
   assign \$3  = fifo_level <= (* src = "axihp_fifo.py:55" *) 4'hc;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
-    .replace(replace),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
-  always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 65'h00000000000000000;
-    \$next\fifo_din  = { data_in, end_in };
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = read;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = fifo_readable;
-  end
-  always @* begin
-    \$next\readable16  = 1'h0;
-    \$next\readable16  = \$1 ;
-  end
-  always @* begin
-    \$next\writable16  = 1'h0;
-    \$next\writable16  = \$3 ;
-  end
-  always @* begin
-    \$next\data_out  = 64'h0000000000000000;
-    \$next\data_out  = fifo_dout[64:1];
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = fifo_dout[0];
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  assign valid_out = \$next\valid_out ;
-  assign end_out = \$next\end_out ;
-  assign data_out = \$next\data_out ;
-  assign writable16 = \$next\writable16 ;
-  assign readable16 = \$next\readable16 ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
-  assign fifo_re = \$next\fifo_re ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign valid_out = fifo_r_rdy;
+  assign end_out = fifo_r_data[0];
+  assign data_out = fifo_r_data[64:1];
+  assign writable16 = \$3 ;
+  assign readable16 = \$1 ;
+  assign readable = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_r_en = read;
+  assign fifo_w_data = { data_in, end_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
diff --git a/verilog_src/axihp_reader.v b/verilog_src/axihp_reader.v
index 76e7873..96df768 100644
--- a/verilog_src/axihp_reader.v
+++ b/verilog_src/axihp_reader.v
@@ -1,156 +1,195 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_axi_ri__rlast, m_axi_ri__rresp, m_axi_ri__rdata, m_axi_aclk_, rst, clk, inactive, data_clk, data_enable, data_out, addr_clk, addr_enable, reader_error, reader_active, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst, m_axi_ro__arlen, m_axi_ro__arsize, m_axi_ro__arprot, m_axi_ro__arvalid, m_axi_ro__rready, m_axi_ri__arready);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_axi_areset_n_, enable, inactive, data_clk, data_enable, data_out, data_full, addr_clk, addr_enable, addr_in, addr_empty, reader_error, reader_active, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst, m_axi_ro__arlen, m_axi_ro__arsize, m_axi_ro__arprot, m_axi_ro__arvalid, m_axi_ro__rready
+, m_axi_ri__arready, m_axi_ri__racount, m_axi_ri__rid, m_axi_ri__rdata, m_axi_ri__rlast, m_axi_ri__rresp, m_axi_ri__rvalid, m_axi_ri__rcount, clk, rst, m_axi_aclk_);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
+  (* src = "axihp_reader.py:83" *)
   wire \$1 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$11 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$13 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$15 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$17 ;
+  (* src = "axihp_reader.py:107" *)
   wire \$19 ;
+  (* src = "axihp_reader.py:107" *)
   wire \$21 ;
+  (* src = "axihp_reader.py:107" *)
   wire \$23 ;
+  (* src = "axihp_reader.py:108" *)
   wire \$25 ;
+  (* src = "axihp_reader.py:108" *)
   wire \$27 ;
+  (* src = "axihp_reader.py:108" *)
   wire \$29 ;
+  (* src = "axihp_reader.py:83" *)
   wire \$3 ;
+  (* src = "axihp_reader.py:111" *)
   wire \$31 ;
+  (* src = "axihp_reader.py:113" *)
   wire \$33 ;
+  (* src = "axihp_reader.py:113" *)
   wire \$35 ;
+  (* src = "axihp_reader.py:113" *)
   wire \$37 ;
+  (* src = "axihp_reader.py:122" *)
   wire \$39 ;
+  (* src = "axihp_reader.py:122" *)
   wire \$41 ;
+  (* src = "axihp_reader.py:122" *)
   wire \$43 ;
+  (* src = "axihp_reader.py:134" *)
   wire \$45 ;
+  (* src = "axihp_reader.py:134" *)
   wire \$47 ;
+  (* src = "axihp_reader.py:134" *)
   wire \$49 ;
+  (* src = "axihp_reader.py:83" *)
   wire \$5 ;
-  wire [4:0] \$51 ;
-  wire [4:0] \$52 ;
-  wire [4:0] \$54 ;
-  wire [4:0] \$55 ;
-  wire \$57 ;
+  (* src = "axihp_reader.py:138" *)
+  wire \$51 ;
+  (* src = "axihp_reader.py:138" *)
+  wire \$53 ;
+  (* src = "axihp_reader.py:138" *)
+  wire \$55 ;
+  (* src = "axihp_reader.py:135" *)
+  wire [4:0] \$57 ;
+  (* src = "axihp_reader.py:135" *)
+  wire [4:0] \$58 ;
+  (* src = "axihp_reader.py:139" *)
+  wire [4:0] \$60 ;
+  (* src = "axihp_reader.py:139" *)
+  wire [4:0] \$61 ;
+  (* src = "axihp_reader.py:141" *)
+  wire \$63 ;
+  (* src = "axihp_reader.py:86" *)
   wire \$7 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$9 ;
-  (* src = "axihp_reader.py:69" *)
-  reg [3:0] \$next\active ;
-  (* src = "axihp_reader.py:25" *)
-  reg \$next\addr_clk ;
-  (* src = "axihp_reader.py:75" *)
-  reg \$next\addr_en ;
-  (* src = "axihp_reader.py:26" *)
-  reg \$next\addr_enable ;
-  (* src = "axihp_reader.py:66" *)
-  reg [3:0] \$next\arlen_c ;
-  (* src = "axihp_reader.py:70" *)
-  reg \$next\arvalid ;
-  (* src = "axihp_reader.py:20" *)
-  reg \$next\data_clk ;
-  (* src = "axihp_reader.py:74" *)
-  reg \$next\data_en ;
-  (* src = "axihp_reader.py:21" *)
-  reg \$next\data_enable ;
-  (* src = "axihp_reader.py:22" *)
-  reg [63:0] \$next\data_out ;
-  (* src = "axihp_reader.py:15" *)
-  reg \$next\inactive ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\m_axi_ro__araddr ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_ro__arburst ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [5:0] \$next\m_axi_ro__arid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [3:0] \$next\m_axi_ro__arlen ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [2:0] \$next\m_axi_ro__arprot ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_ro__arsize ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_ro__arvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_ro__rready ;
-  (* src = "axihp_reader.py:31" *)
-  reg [3:0] \$next\reader_active ;
-  (* src = "axihp_reader.py:30" *)
-  reg \$next\reader_error ;
-  (* src = "axihp_reader.py:72" *)
-  reg \$next\rready ;
   (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* init = 4'h0 *)
+  wire \$verilog_initial_trigger ;
   (* src = "axihp_reader.py:69" *)
   reg [3:0] active = 4'h0;
+  (* src = "axihp_reader.py:69" *)
+  reg [3:0] \active$next ;
   (* src = "axihp_reader.py:25" *)
   output addr_clk;
+  wire addr_clk;
   (* src = "axihp_reader.py:28" *)
   input addr_empty;
+  wire addr_empty;
   (* src = "axihp_reader.py:75" *)
   wire addr_en;
   (* src = "axihp_reader.py:26" *)
   output addr_enable;
+  wire addr_enable;
   (* src = "axihp_reader.py:27" *)
   input [31:0] addr_in;
+  wire [31:0] addr_in;
   (* src = "axihp_reader.py:66" *)
   wire [3:0] arlen_c;
-  (* init = 1'h0 *)
   (* src = "axihp_reader.py:70" *)
   reg arvalid = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "axihp_reader.py:70" *)
+  reg \arvalid$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "axihp_reader.py:20" *)
   output data_clk;
+  wire data_clk;
   (* src = "axihp_reader.py:74" *)
   wire data_en;
   (* src = "axihp_reader.py:21" *)
   output data_enable;
+  wire data_enable;
   (* src = "axihp_reader.py:23" *)
   input data_full;
+  wire data_full;
   (* src = "axihp_reader.py:22" *)
   output [63:0] data_out;
+  wire [63:0] data_out;
   (* src = "axihp_reader.py:14" *)
   input enable;
+  wire enable;
   (* src = "axihp_reader.py:15" *)
   output inactive;
+  wire inactive;
   (* src = "axihp_reader.py:12" *)
   input m_axi_aclk_;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_aclk_;
+  (* src = "axihp_reader.py:13" *)
+  input m_axi_areset_n_;
+  wire m_axi_areset_n_;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__arready;
+  (* src = "axihp_reader.py:18" *)
+  input m_axi_ri__racount;
+  wire m_axi_ri__racount;
+  (* src = "axihp_reader.py:18" *)
+  input [7:0] m_axi_ri__rcount;
+  wire [7:0] m_axi_ri__rcount;
+  (* src = "axihp_reader.py:18" *)
   input [63:0] m_axi_ri__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [63:0] m_axi_ri__rdata;
+  (* src = "axihp_reader.py:18" *)
+  input [5:0] m_axi_ri__rid;
+  wire [5:0] m_axi_ri__rid;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__rlast;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__rlast;
+  (* src = "axihp_reader.py:18" *)
   input [1:0] m_axi_ri__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ri__rresp;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__rvalid;
+  (* src = "axihp_reader.py:17" *)
   output [31:0] m_axi_ro__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_ro__araddr;
+  (* src = "axihp_reader.py:17" *)
   output [1:0] m_axi_ro__arburst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ro__arburst;
+  (* src = "axihp_reader.py:17" *)
   output [5:0] m_axi_ro__arid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_ro__arid;
+  (* src = "axihp_reader.py:17" *)
   output [3:0] m_axi_ro__arlen;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] m_axi_ro__arlen;
+  (* src = "axihp_reader.py:17" *)
   output [2:0] m_axi_ro__arprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_ro__arprot;
+  (* src = "axihp_reader.py:17" *)
   output [1:0] m_axi_ro__arsize;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ro__arsize;
+  (* src = "axihp_reader.py:17" *)
   output m_axi_ro__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ro__arvalid;
+  (* src = "axihp_reader.py:17" *)
   output m_axi_ro__rready;
+  wire m_axi_ro__rready;
   (* src = "axihp_reader.py:31" *)
   output [3:0] reader_active;
+  wire [3:0] reader_active;
   (* src = "axihp_reader.py:30" *)
   output reader_error;
-  (* init = 1'h0 *)
+  wire reader_error;
+  (* src = "axihp_reader.py:71" *)
+  wire rlast;
   (* src = "axihp_reader.py:72" *)
   reg rready = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "axihp_reader.py:72" *)
+  reg \rready$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   assign \$9  = enable == (* src = "axihp_reader.py:88" *) 1'h1;
   assign \$11  = addr_empty == (* src = "axihp_reader.py:88" *) 1'h0;
   assign \$13  = \$9  & (* src = "axihp_reader.py:88" *) \$11 ;
@@ -160,185 +199,137 @@ module top(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_axi_ri__r
   assign \$19  = rready == (* src = "axihp_reader.py:107" *) 1'h1;
   assign \$21  = m_axi_ri__rvalid == (* src = "axihp_reader.py:107" *) 1'h1;
   assign \$23  = \$19  & (* src = "axihp_reader.py:107" *) \$21 ;
-  assign \$25  = rready == (* src = "axihp_reader.py:110" *) 1'h0;
-  assign \$27  = data_full == (* src = "axihp_reader.py:112" *) 1'h0;
-  assign \$29  = active != (* src = "axihp_reader.py:112" *) 1'h0;
-  assign \$31  = \$27  & (* src = "axihp_reader.py:112" *) \$29 ;
-  assign \$33  = data_en == (* src = "axihp_reader.py:121" *) 1'h1;
-  assign \$35  = m_axi_ri__rresp != (* src = "axihp_reader.py:121" *) 1'h0;
-  assign \$37  = \$33  & (* src = "axihp_reader.py:121" *) \$35 ;
+  assign \$25  = data_en == (* src = "axihp_reader.py:108" *) 1'h1;
+  assign \$27  = m_axi_ri__rlast == (* src = "axihp_reader.py:108" *) 1'h1;
+  assign \$29  = \$25  & (* src = "axihp_reader.py:108" *) \$27 ;
+  assign \$31  = rready == (* src = "axihp_reader.py:111" *) 1'h0;
+  assign \$33  = data_full == (* src = "axihp_reader.py:113" *) 1'h0;
+  assign \$35  = active != (* src = "axihp_reader.py:113" *) 1'h0;
+  assign \$37  = \$33  & (* src = "axihp_reader.py:113" *) \$35 ;
   assign \$3  = m_axi_ri__arready == (* src = "axihp_reader.py:83" *) 1'h1;
-  assign \$39  = addr_en == (* src = "axihp_reader.py:133" *) 1'h1;
-  assign \$41  = m_axi_ri__rlast == (* src = "axihp_reader.py:133" *) 1'h0;
-  assign \$43  = \$39  & (* src = "axihp_reader.py:133" *) \$41 ;
-  assign \$45  = addr_en == (* src = "axihp_reader.py:137" *) 1'h0;
-  assign \$47  = m_axi_ri__rlast == (* src = "axihp_reader.py:137" *) 1'h1;
-  assign \$49  = \$45  & (* src = "axihp_reader.py:137" *) \$47 ;
-  assign \$52  = active + (* src = "axihp_reader.py:134" *) 1'h1;
-  assign \$55  = active - (* src = "axihp_reader.py:138" *) 1'h1;
-  assign \$57  = active == (* src = "axihp_reader.py:140" *) 1'h0;
+  assign \$39  = data_en == (* src = "axihp_reader.py:122" *) 1'h1;
+  assign \$41  = m_axi_ri__rresp != (* src = "axihp_reader.py:122" *) 1'h0;
+  assign \$43  = \$39  & (* src = "axihp_reader.py:122" *) \$41 ;
+  assign \$45  = addr_en == (* src = "axihp_reader.py:134" *) 1'h1;
+  assign \$47  = rlast == (* src = "axihp_reader.py:134" *) 1'h0;
+  assign \$49  = \$45  & (* src = "axihp_reader.py:134" *) \$47 ;
+  assign \$51  = addr_en == (* src = "axihp_reader.py:138" *) 1'h0;
+  assign \$53  = rlast == (* src = "axihp_reader.py:138" *) 1'h1;
+  assign \$55  = \$51  & (* src = "axihp_reader.py:138" *) \$53 ;
+  assign \$58  = active + (* src = "axihp_reader.py:135" *) 1'h1;
   assign \$5  = \$1  & (* src = "axihp_reader.py:83" *) \$3 ;
+  assign \$61  = active - (* src = "axihp_reader.py:139" *) 1'h1;
+  assign \$63  = active == (* src = "axihp_reader.py:141" *) 1'h0;
   assign \$7  = arvalid == (* src = "axihp_reader.py:86" *) 1'h0;
   always @(posedge clk)
-      active <= \$next\active ;
+    active <= \active$next ;
   always @(posedge clk)
-      rready <= \$next\rready ;
+    rready <= \rready$next ;
   always @(posedge clk)
-      arvalid <= \$next\arvalid ;
-  always @* begin
-    \$next\arlen_c  = 4'h0;
-    \$next\arlen_c  = 4'hf;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\addr_en  = 1'h0;
-    \$next\addr_en  = \$5 ;
-  end
-  always @* begin
-    \$next\m_axi_ro__rready  = 1'h0;
-    \$next\m_axi_ro__rready  = rready;
-  end
-  always @* begin
-    \$next\data_enable  = 1'h0;
-    \$next\data_enable  = data_en;
-  end
+    arvalid <= \arvalid$next ;
   always @* begin
-    \$next\active  = active;
-    casez ({ \$49 , \$43  })
-      2'bz1:
-          \$next\active  = \$51 [3:0];
-      2'b1z:
-          \$next\active  = \$54 [3:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \active$next  = active;
+    (* src = "axihp_reader.py:134" *)
+    casez ({ \$55 , \$49  })
+      /* src = "axihp_reader.py:134" */
+      2'b?1:
+          \active$next  = \$58 [3:0];
+      /* src = "axihp_reader.py:138" */
+      2'b1?:
+          \active$next  = \$61 [3:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\active  = 4'h0;
+          \active$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\inactive  = 1'h0;
-    \$next\inactive  = \$57 ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arid  = 6'h00;
-    \$next\m_axi_ro__arid  = 6'h00;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arlen  = 4'h0;
-    \$next\m_axi_ro__arlen  = arlen_c;
-  end
-  always @* begin
-    \$next\m_axi_ro__arburst  = 2'h0;
-    \$next\m_axi_ro__arburst  = 2'h1;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arsize  = 2'h0;
-    \$next\m_axi_ro__arsize  = 2'h3;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arprot  = 3'h0;
-    \$next\m_axi_ro__arprot  = 3'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\data_clk  = 1'h0;
-    \$next\data_clk  = m_axi_aclk_;
-  end
-  always @* begin
-    \$next\arvalid  = arvalid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \arvalid$next  = arvalid;
+    (* src = "axihp_reader.py:86" *)
     casez (\$7 )
+      /* src = "axihp_reader.py:86" */
       1'h1:
+          (* src = "axihp_reader.py:88" *)
           casez (\$17 )
+            /* src = "axihp_reader.py:88" */
             1'h1:
-                \$next\arvalid  = 1'h1;
+                \arvalid$next  = 1'h1;
           endcase
     endcase
+    (* src = "axihp_reader.py:92" *)
     casez (arvalid)
+      /* src = "axihp_reader.py:92" */
       1'h1:
+          (* src = "axihp_reader.py:93" *)
           casez (m_axi_ri__arready)
+            /* src = "axihp_reader.py:93" */
             1'h1:
-                \$next\arvalid  = 1'h0;
+                \arvalid$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\arvalid  = 1'h0;
+          \arvalid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\addr_clk  = 1'h0;
-    \$next\addr_clk  = m_axi_aclk_;
-  end
-  always @* begin
-    \$next\reader_active  = 4'h0;
-    \$next\reader_active  = active;
-  end
-  always @* begin
-    \$next\m_axi_ro__araddr  = 32'd0;
-    \$next\m_axi_ro__araddr  = addr_in;
-  end
-  always @* begin
-    \$next\m_axi_ro__arvalid  = 1'h0;
-    \$next\m_axi_ro__arvalid  = arvalid;
-  end
-  always @* begin
-    \$next\addr_enable  = 1'h0;
-    \$next\addr_enable  = addr_en;
-  end
-  always @* begin
-    \$next\data_en  = 1'h0;
-    \$next\data_en  = \$23 ;
-  end
-  always @* begin
-    \$next\rready  = rready;
-    casez (\$25 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \rready$next  = rready;
+    (* src = "axihp_reader.py:111" *)
+    casez (\$31 )
+      /* src = "axihp_reader.py:111" */
       1'h1:
-          casez (\$31 )
+          (* src = "axihp_reader.py:113" *)
+          casez (\$37 )
+            /* src = "axihp_reader.py:113" */
             1'h1:
-                \$next\rready  = 1'h1;
+                \rready$next  = 1'h1;
           endcase
-      1'hz:
-          casez (m_axi_ri__rlast)
+      /* src = "axihp_reader.py:117" */
+      default:
+          (* src = "axihp_reader.py:118" *)
+          casez (rlast)
+            /* src = "axihp_reader.py:118" */
             1'h1:
-                \$next\rready  = 1'h0;
+                \rready$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\rready  = 1'h0;
+          \rready$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\reader_error  = 1'h0;
-    \$next\reader_error  = \$37 ;
-  end
-  always @* begin
-    \$next\data_out  = 64'h0000000000000000;
-    \$next\data_out  = m_axi_ri__rdata;
-  end
-  assign \$51  = \$52 ;
-  assign \$54  = \$55 ;
-  assign reader_active = \$next\reader_active ;
-  assign addr_clk = \$next\addr_clk ;
-  assign data_clk = \$next\data_clk ;
-  assign m_axi_ro__arprot = \$next\m_axi_ro__arprot ;
-  assign m_axi_ro__arsize = \$next\m_axi_ro__arsize ;
-  assign m_axi_ro__arburst = \$next\m_axi_ro__arburst ;
-  assign m_axi_ro__arlen = \$next\m_axi_ro__arlen ;
-  assign m_axi_ro__arid = \$next\m_axi_ro__arid ;
-  assign inactive = \$next\inactive ;
-  assign data_enable = \$next\data_enable ;
-  assign m_axi_ro__rready = \$next\m_axi_ro__rready ;
-  assign data_out = \$next\data_out ;
-  assign reader_error = \$next\reader_error ;
-  assign data_en = \$next\data_en ;
-  assign addr_enable = \$next\addr_enable ;
-  assign m_axi_ro__arvalid = \$next\m_axi_ro__arvalid ;
-  assign m_axi_ro__araddr = \$next\m_axi_ro__araddr ;
-  assign addr_en = \$next\addr_en ;
-  assign arlen_c = \$next\arlen_c ;
+  assign \$57  = \$58 ;
+  assign \$60  = \$61 ;
+  assign reader_active = active;
+  assign addr_clk = m_axi_aclk_;
+  assign data_clk = m_axi_aclk_;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arprot = 3'h0;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arsize = 2'h3;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arburst = 2'h1;
+  assign m_axi_ro__arlen = arlen_c;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arid = 6'h00;
+  assign inactive = \$63 ;
+  assign data_enable = data_en;
+  assign m_axi_ro__rready = rready;
+  assign data_out = m_axi_ri__rdata;
+  assign reader_error = \$43 ;
+  assign rlast = \$29 ;
+  assign data_en = \$23 ;
+  assign addr_enable = addr_en;
+  assign m_axi_ro__arvalid = arvalid;
+  assign m_axi_ro__araddr = addr_in;
+  assign addr_en = \$5 ;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign arlen_c = 4'hf;
 endmodule
 
diff --git a/verilog_src/axihp_writer.v b/verilog_src/axihp_writer.v
index 4a97945..ea899b2 100644
--- a/verilog_src/axihp_writer.v
+++ b/verilog_src/axihp_writer.v
@@ -1,535 +1,530 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, data_in, m_axi_wi__bvalid, m_axi_wi__bresp, write_strobe, m_axi_aclk, rst, clk, inactive, data_clk, data_enable, addr_clk, addr_enable, writer_error, writer_active, writer_unconf, m_axi_wo__awid, m_axi_wo__awaddr, m_axi_wo__awburst, m_axi_wo__awlen, m_axi_wo__awsize, m_axi_wo__awprot, m_axi_wo__awvalid, m_axi_wo__wid, m_axi_wo__wdata, m_axi_wo__wstrb, m_axi_wo__wlast, m_axi_wo__wvalid, m_axi_wo__bready, m_axi_wi__awready);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_axi_areset_n, enable, inactive, data_clk, data_enable, data_in, data_empty, addr_clk, addr_enable, addr_in, addr_empty, write_strobe, writer_error, writer_active, writer_unconf, m_axi_wo__awid, m_axi_wo__awaddr, m_axi_wo__awburst, m_axi_wo__awlen, m_axi_wo__awsize, m_axi_wo__awprot
+, m_axi_wo__awvalid, m_axi_wo__wid, m_axi_wo__wdata, m_axi_wo__wstrb, m_axi_wo__wlast, m_axi_wo__wvalid, m_axi_wo__bready, m_axi_wi__awready, m_axi_wi__wacount, m_axi_wi__wready, m_axi_wi__wcount, m_axi_wi__bid, m_axi_wi__bresp, m_axi_wi__bvalid, clk, rst, m_axi_aclk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$7  = 0;
+  (* src = "axihp_writer.py:96" *)
   wire \$1 ;
+  (* src = "axihp_writer.py:192" *)
+  wire \$100 ;
+  (* src = "axihp_writer.py:192" *)
+  wire \$102 ;
+  (* src = "axihp_writer.py:190" *)
+  wire [4:0] \$104 ;
+  (* src = "axihp_writer.py:190" *)
+  wire [4:0] \$105 ;
+  (* src = "axihp_writer.py:194" *)
+  wire [4:0] \$107 ;
+  (* src = "axihp_writer.py:194" *)
+  wire [4:0] \$108 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$11 ;
+  (* src = "axihp_writer.py:196" *)
+  wire \$110 ;
+  (* src = "axihp_writer.py:196" *)
+  wire \$112 ;
+  (* src = "axihp_writer.py:196" *)
+  wire \$114 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$13 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$15 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$17 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$19 ;
-  wire [4:0] \$21 ;
-  wire [4:0] \$22 ;
-  wire \$24 ;
+  (* src = "axihp_writer.py:101" *)
+  wire \$21 ;
+  (* src = "axihp_writer.py:126" *)
+  wire [4:0] \$23 ;
+  (* src = "axihp_writer.py:126" *)
+  wire [4:0] \$24 ;
+  (* src = "axihp_writer.py:128" *)
   wire \$26 ;
+  (* src = "axihp_writer.py:130" *)
   wire \$28 ;
+  (* src = "axihp_writer.py:96" *)
   wire \$3 ;
+  (* src = "axihp_writer.py:130" *)
   wire \$30 ;
+  (* src = "axihp_writer.py:130" *)
   wire \$32 ;
+  (* src = "axihp_writer.py:133" *)
   wire \$34 ;
+  (* src = "axihp_writer.py:135" *)
   wire \$36 ;
+  (* src = "axihp_writer.py:135" *)
   wire \$38 ;
+  (* src = "axihp_writer.py:135" *)
   wire \$40 ;
+  (* src = "axihp_writer.py:140" *)
   wire \$42 ;
+  (* src = "axihp_writer.py:140" *)
   wire \$44 ;
+  (* src = "axihp_writer.py:140" *)
   wire \$46 ;
+  (* src = "axihp_writer.py:155" *)
   wire \$48 ;
+  (* src = "axihp_writer.py:96" *)
   wire \$5 ;
+  (* src = "axihp_writer.py:155" *)
   wire \$50 ;
+  (* src = "axihp_writer.py:155" *)
   wire \$52 ;
+  (* src = "axihp_writer.py:158" *)
   wire \$54 ;
+  (* src = "axihp_writer.py:160" *)
   wire \$56 ;
+  (* src = "axihp_writer.py:160" *)
   wire \$58 ;
+  (* src = "axihp_writer.py:160" *)
   wire \$60 ;
+  (* src = "axihp_writer.py:165" *)
   wire \$62 ;
+  (* src = "axihp_writer.py:170" *)
   wire \$64 ;
+  (* src = "axihp_writer.py:170" *)
   wire \$66 ;
-  wire [4:0] \$68 ;
-  wire [4:0] \$69 ;
+  (* src = "axihp_writer.py:170" *)
+  wire \$68 ;
+  (* src = "axihp_writer.py:99" *)
   wire \$7 ;
-  wire [4:0] \$71 ;
-  wire [4:0] \$72 ;
+  (* src = "axihp_writer.py:179" *)
+  wire \$70 ;
+  (* src = "axihp_writer.py:179" *)
+  wire \$72 ;
+  (* src = "axihp_writer.py:179" *)
   wire \$74 ;
+  (* src = "axihp_writer.py:179" *)
   wire \$76 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$78 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$80 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$82 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$84 ;
+  (* src = "axihp_writer.py:181" *)
   wire [4:0] \$86 ;
+  (* src = "axihp_writer.py:181" *)
   wire [4:0] \$87 ;
+  (* src = "axihp_writer.py:185" *)
   wire [4:0] \$89 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$9 ;
+  (* src = "axihp_writer.py:185" *)
   wire [4:0] \$90 ;
+  (* src = "axihp_writer.py:188" *)
   wire \$92 ;
+  (* src = "axihp_writer.py:188" *)
   wire \$94 ;
+  (* src = "axihp_writer.py:188" *)
   wire \$96 ;
-  (* src = "axihp_writer.py:79" *)
-  reg [3:0] \$next\active ;
-  (* src = "axihp_writer.py:20" *)
-  reg \$next\addr_clk ;
-  (* src = "axihp_writer.py:88" *)
-  reg \$next\addr_en ;
-  (* src = "axihp_writer.py:21" *)
-  reg \$next\addr_enable ;
-  (* src = "axihp_writer.py:76" *)
-  reg [3:0] \$next\awlen_c ;
-  (* src = "axihp_writer.py:82" *)
-  reg \$next\awvalid ;
-  (* src = "axihp_writer.py:85" *)
-  reg \$next\bready ;
-  (* src = "axihp_writer.py:121" *)
-  reg [3:0] \$next\counter ;
-  (* src = "axihp_writer.py:25" *)
-  reg \$next\data_clk ;
-  (* src = "axihp_writer.py:87" *)
-  reg \$next\data_en ;
-  (* src = "axihp_writer.py:26" *)
-  reg \$next\data_enable ;
-  (* src = "axihp_writer.py:15" *)
-  reg \$next\inactive ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\m_axi_wo__awaddr ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_wo__awburst ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [5:0] \$next\m_axi_wo__awid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [3:0] \$next\m_axi_wo__awlen ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [2:0] \$next\m_axi_wo__awprot ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_wo__awsize ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__awvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__bready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [63:0] \$next\m_axi_wo__wdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [5:0] \$next\m_axi_wo__wid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__wlast ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [7:0] \$next\m_axi_wo__wstrb ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__wvalid ;
-  (* src = "axihp_writer.py:89" *)
-  reg \$next\resp_en ;
-  (* src = "axihp_writer.py:80" *)
-  reg [3:0] \$next\unconf ;
-  (* src = "axihp_writer.py:84" *)
-  reg \$next\wlast ;
-  (* src = "axihp_writer.py:33" *)
-  reg [3:0] \$next\writer_active ;
-  (* src = "axihp_writer.py:32" *)
-  reg \$next\writer_error ;
-  (* src = "axihp_writer.py:34" *)
-  reg [3:0] \$next\writer_unconf ;
-  (* src = "axihp_writer.py:83" *)
-  reg \$next\wvalid ;
+  (* src = "axihp_writer.py:192" *)
+  wire \$98 ;
   (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* init = 4'h0 *)
+  wire \$verilog_initial_trigger ;
   (* src = "axihp_writer.py:79" *)
   reg [3:0] active = 4'h0;
+  (* src = "axihp_writer.py:79" *)
+  reg [3:0] \active$next ;
   (* src = "axihp_writer.py:20" *)
   output addr_clk;
+  wire addr_clk;
   (* src = "axihp_writer.py:23" *)
   input addr_empty;
+  wire addr_empty;
   (* src = "axihp_writer.py:88" *)
   wire addr_en;
   (* src = "axihp_writer.py:21" *)
   output addr_enable;
+  wire addr_enable;
   (* src = "axihp_writer.py:22" *)
   input [31:0] addr_in;
+  wire [31:0] addr_in;
   (* src = "axihp_writer.py:76" *)
   wire [3:0] awlen_c;
-  (* init = 1'h0 *)
   (* src = "axihp_writer.py:82" *)
   reg awvalid = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "axihp_writer.py:82" *)
+  reg \awvalid$next ;
   (* src = "axihp_writer.py:85" *)
   reg bready = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "axihp_writer.py:85" *)
+  reg \bready$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "axihp_writer.py:121" *)
   reg [3:0] counter = 4'h0;
+  (* src = "axihp_writer.py:121" *)
+  reg [3:0] \counter$next ;
   (* src = "axihp_writer.py:25" *)
   output data_clk;
+  wire data_clk;
   (* src = "axihp_writer.py:28" *)
   input data_empty;
+  wire data_empty;
   (* src = "axihp_writer.py:87" *)
   wire data_en;
   (* src = "axihp_writer.py:26" *)
   output data_enable;
+  wire data_enable;
   (* src = "axihp_writer.py:27" *)
   input [63:0] data_in;
+  wire [63:0] data_in;
   (* src = "axihp_writer.py:14" *)
   input enable;
+  wire enable;
   (* src = "axihp_writer.py:15" *)
   output inactive;
+  wire inactive;
   (* src = "axihp_writer.py:12" *)
   input m_axi_aclk;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_aclk;
+  (* src = "axihp_writer.py:13" *)
+  input m_axi_areset_n;
+  wire m_axi_areset_n;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__awready;
+  (* src = "axihp_writer.py:18" *)
+  input [5:0] m_axi_wi__bid;
+  wire [5:0] m_axi_wi__bid;
+  (* src = "axihp_writer.py:18" *)
   input [1:0] m_axi_wi__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wi__bresp;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__bvalid;
+  (* src = "axihp_writer.py:18" *)
+  input [5:0] m_axi_wi__wacount;
+  wire [5:0] m_axi_wi__wacount;
+  (* src = "axihp_writer.py:18" *)
+  input [7:0] m_axi_wi__wcount;
+  wire [7:0] m_axi_wi__wcount;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__wready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__wready;
+  (* src = "axihp_writer.py:17" *)
   output [31:0] m_axi_wo__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_wo__awaddr;
+  (* src = "axihp_writer.py:17" *)
   output [1:0] m_axi_wo__awburst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wo__awburst;
+  (* src = "axihp_writer.py:17" *)
   output [5:0] m_axi_wo__awid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_wo__awid;
+  (* src = "axihp_writer.py:17" *)
   output [3:0] m_axi_wo__awlen;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] m_axi_wo__awlen;
+  (* src = "axihp_writer.py:17" *)
   output [2:0] m_axi_wo__awprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_wo__awprot;
+  (* src = "axihp_writer.py:17" *)
   output [1:0] m_axi_wo__awsize;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wo__awsize;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__awvalid;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__bready;
+  (* src = "axihp_writer.py:17" *)
   output [63:0] m_axi_wo__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [63:0] m_axi_wo__wdata;
+  (* src = "axihp_writer.py:17" *)
   output [5:0] m_axi_wo__wid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_wo__wid;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__wlast;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__wlast;
+  (* src = "axihp_writer.py:17" *)
   output [7:0] m_axi_wo__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [7:0] m_axi_wo__wstrb;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__wvalid;
+  wire m_axi_wo__wvalid;
   (* src = "axihp_writer.py:89" *)
   wire resp_en;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 4'h0 *)
+  wire rst;
   (* src = "axihp_writer.py:80" *)
   reg [3:0] unconf = 4'h0;
-  (* init = 1'h0 *)
+  (* src = "axihp_writer.py:80" *)
+  reg [3:0] \unconf$next ;
   (* src = "axihp_writer.py:84" *)
-  reg wlast = 1'h0;
+  wire wlast;
   (* src = "axihp_writer.py:30" *)
   input [7:0] write_strobe;
+  wire [7:0] write_strobe;
   (* src = "axihp_writer.py:33" *)
   output [3:0] writer_active;
+  wire [3:0] writer_active;
   (* src = "axihp_writer.py:32" *)
   output writer_error;
+  wire writer_error;
   (* src = "axihp_writer.py:34" *)
   output [3:0] writer_unconf;
-  (* init = 1'h0 *)
+  wire [3:0] writer_unconf;
   (* src = "axihp_writer.py:83" *)
   reg wvalid = 1'h0;
+  (* src = "axihp_writer.py:83" *)
+  reg \wvalid$next ;
   assign \$9  = enable == (* src = "axihp_writer.py:101" *) 1'h1;
+  assign \$100  = resp_en == (* src = "axihp_writer.py:192" *) 1'h1;
+  assign \$102  = \$98  & (* src = "axihp_writer.py:192" *) \$100 ;
+  assign \$105  = unconf + (* src = "axihp_writer.py:190" *) 1'h1;
+  assign \$108  = unconf - (* src = "axihp_writer.py:194" *) 1'h1;
+  assign \$110  = active == (* src = "axihp_writer.py:196" *) 1'h0;
+  assign \$112  = unconf == (* src = "axihp_writer.py:196" *) 1'h0;
+  assign \$114  = \$110  & (* src = "axihp_writer.py:196" *) \$112 ;
   assign \$11  = addr_empty == (* src = "axihp_writer.py:101" *) 1'h0;
   assign \$13  = \$9  & (* src = "axihp_writer.py:101" *) \$11 ;
   assign \$15  = active[3] == (* src = "axihp_writer.py:101" *) 1'h0;
   assign \$17  = \$13  & (* src = "axihp_writer.py:101" *) \$15 ;
   assign \$1  = awvalid == (* src = "axihp_writer.py:96" *) 1'h1;
-  assign \$19  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
-  assign \$22  = counter + (* src = "axihp_writer.py:131" *) 1'h1;
-  assign \$24  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
-  assign \$26  = wvalid == (* src = "axihp_writer.py:134" *) 1'h1;
-  assign \$28  = m_axi_wi__wready == (* src = "axihp_writer.py:134" *) 1'h1;
-  assign \$30  = \$26  & (* src = "axihp_writer.py:134" *) \$28 ;
-  assign \$32  = wvalid == (* src = "axihp_writer.py:137" *) 1'h0;
-  assign \$34  = data_empty == (* src = "axihp_writer.py:139" *) 1'h0;
-  assign \$36  = active != (* src = "axihp_writer.py:139" *) 1'h0;
-  assign \$38  = \$34  & (* src = "axihp_writer.py:139" *) \$36 ;
+  assign \$19  = unconf != (* src = "axihp_writer.py:101" *) 4'hf;
+  assign \$21  = \$17  & (* src = "axihp_writer.py:101" *) \$19 ;
+  assign \$24  = counter + (* src = "axihp_writer.py:126" *) 1'h1;
+  assign \$26  = counter == (* src = "axihp_writer.py:128" *) 4'hf;
+  assign \$28  = wvalid == (* src = "axihp_writer.py:130" *) 1'h1;
+  assign \$30  = m_axi_wi__wready == (* src = "axihp_writer.py:130" *) 1'h1;
+  assign \$32  = \$28  & (* src = "axihp_writer.py:130" *) \$30 ;
+  assign \$34  = wvalid == (* src = "axihp_writer.py:133" *) 1'h0;
+  assign \$36  = data_empty == (* src = "axihp_writer.py:135" *) 1'h0;
+  assign \$38  = active != (* src = "axihp_writer.py:135" *) 1'h0;
   assign \$3  = m_axi_wi__awready == (* src = "axihp_writer.py:96" *) 1'h1;
-  assign \$40  = bready == (* src = "axihp_writer.py:159" *) 1'h1;
-  assign \$42  = m_axi_wi__bvalid == (* src = "axihp_writer.py:159" *) 1'h1;
-  assign \$44  = \$40  & (* src = "axihp_writer.py:159" *) \$42 ;
-  assign \$46  = bready == (* src = "axihp_writer.py:162" *) 1'h0;
-  assign \$48  = unconf == (* src = "axihp_writer.py:169" *) 1'h0;
-  assign \$50  = resp_en == (* src = "axihp_writer.py:174" *) 1'h1;
-  assign \$52  = m_axi_wi__bresp != (* src = "axihp_writer.py:174" *) 1'h0;
-  assign \$54  = \$50  & (* src = "axihp_writer.py:174" *) \$52 ;
-  assign \$56  = addr_en == (* src = "axihp_writer.py:183" *) 1'h1;
-  assign \$58  = wlast == (* src = "axihp_writer.py:183" *) 1'h0;
+  assign \$40  = \$36  & (* src = "axihp_writer.py:135" *) \$38 ;
+  assign \$42  = data_en == (* src = "axihp_writer.py:140" *) 1'h1;
+  assign \$44  = wlast == (* src = "axihp_writer.py:140" *) 1'h1;
+  assign \$46  = \$42  & (* src = "axihp_writer.py:140" *) \$44 ;
+  assign \$48  = bready == (* src = "axihp_writer.py:155" *) 1'h1;
+  assign \$50  = m_axi_wi__bvalid == (* src = "axihp_writer.py:155" *) 1'h1;
+  assign \$52  = \$48  & (* src = "axihp_writer.py:155" *) \$50 ;
+  assign \$54  = bready == (* src = "axihp_writer.py:158" *) 1'h0;
+  assign \$56  = enable == (* src = "axihp_writer.py:160" *) 1'h1;
+  assign \$58  = unconf != (* src = "axihp_writer.py:160" *) 1'h0;
   assign \$5  = \$1  & (* src = "axihp_writer.py:96" *) \$3 ;
-  assign \$60  = \$56  & (* src = "axihp_writer.py:183" *) \$58 ;
-  assign \$62  = addr_en == (* src = "axihp_writer.py:187" *) 1'h0;
-  assign \$64  = wlast == (* src = "axihp_writer.py:187" *) 1'h1;
-  assign \$66  = \$62  & (* src = "axihp_writer.py:187" *) \$64 ;
-  assign \$69  = active + (* src = "axihp_writer.py:185" *) 1'h1;
-  assign \$72  = active - (* src = "axihp_writer.py:189" *) 1'h1;
-  assign \$74  = addr_en == (* src = "axihp_writer.py:192" *) 1'h1;
-  assign \$76  = resp_en == (* src = "axihp_writer.py:192" *) 1'h0;
-  assign \$78  = \$74  & (* src = "axihp_writer.py:192" *) \$76 ;
+  assign \$60  = \$56  | (* src = "axihp_writer.py:160" *) \$58 ;
+  assign \$62  = unconf == (* src = "axihp_writer.py:165" *) 1'h0;
+  assign \$64  = resp_en == (* src = "axihp_writer.py:170" *) 1'h1;
+  assign \$66  = m_axi_wi__bresp != (* src = "axihp_writer.py:170" *) 1'h0;
+  assign \$68  = \$64  & (* src = "axihp_writer.py:170" *) \$66 ;
+  assign \$70  = addr_en == (* src = "axihp_writer.py:179" *) 1'h1;
+  assign \$72  = data_en & (* src = "axihp_writer.py:179" *) wlast;
+  assign \$74  = \$72  == (* src = "axihp_writer.py:179" *) 1'h0;
+  assign \$76  = \$70  & (* src = "axihp_writer.py:179" *) \$74 ;
+  assign \$78  = addr_en == (* src = "axihp_writer.py:183" *) 1'h0;
   assign \$7  = awvalid == (* src = "axihp_writer.py:99" *) 1'h0;
-  assign \$80  = addr_en == (* src = "axihp_writer.py:196" *) 1'h0;
-  assign \$82  = resp_en == (* src = "axihp_writer.py:196" *) 1'h1;
-  assign \$84  = \$80  & (* src = "axihp_writer.py:196" *) \$82 ;
-  assign \$87  = unconf + (* src = "axihp_writer.py:194" *) 1'h1;
-  assign \$90  = unconf - (* src = "axihp_writer.py:198" *) 1'h1;
-  assign \$92  = active == (* src = "axihp_writer.py:200" *) 1'h0;
-  assign \$94  = unconf == (* src = "axihp_writer.py:200" *) 1'h0;
-  assign \$96  = \$92  & (* src = "axihp_writer.py:200" *) \$94 ;
+  assign \$80  = data_en & (* src = "axihp_writer.py:183" *) wlast;
+  assign \$82  = \$80  == (* src = "axihp_writer.py:183" *) 1'h1;
+  assign \$84  = \$78  & (* src = "axihp_writer.py:183" *) \$82 ;
+  assign \$87  = active + (* src = "axihp_writer.py:181" *) 1'h1;
+  assign \$90  = active - (* src = "axihp_writer.py:185" *) 1'h1;
+  assign \$92  = addr_en == (* src = "axihp_writer.py:188" *) 1'h1;
+  assign \$94  = resp_en == (* src = "axihp_writer.py:188" *) 1'h0;
+  assign \$96  = \$92  & (* src = "axihp_writer.py:188" *) \$94 ;
+  assign \$98  = addr_en == (* src = "axihp_writer.py:192" *) 1'h0;
   always @(posedge clk)
-      unconf <= \$next\unconf ;
+    unconf <= \unconf$next ;
   always @(posedge clk)
-      active <= \$next\active ;
+    active <= \active$next ;
   always @(posedge clk)
-      bready <= \$next\bready ;
+    bready <= \bready$next ;
   always @(posedge clk)
-      wvalid <= \$next\wvalid ;
+    wvalid <= \wvalid$next ;
   always @(posedge clk)
-      wlast <= \$next\wlast ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
-  always @(posedge clk)
-      awvalid <= \$next\awvalid ;
-  always @* begin
-    \$next\awlen_c  = 4'h0;
-    \$next\awlen_c  = 4'hf;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\addr_en  = 1'h0;
-    \$next\addr_en  = \$5 ;
-  end
-  always @* begin
-    \$next\m_axi_wo__wdata  = 64'h0000000000000000;
-    \$next\m_axi_wo__wdata  = data_in;
-  end
-  always @* begin
-    \$next\m_axi_wo__wvalid  = 1'h0;
-    \$next\m_axi_wo__wvalid  = wvalid;
-  end
-  always @* begin
-    \$next\m_axi_wo__wlast  = 1'h0;
-    \$next\m_axi_wo__wlast  = wlast;
-  end
-  always @* begin
-    \$next\data_enable  = 1'h0;
-    \$next\data_enable  = data_en;
-  end
-  always @* begin
-    \$next\resp_en  = 1'h0;
-    \$next\resp_en  = \$44 ;
-  end
+    awvalid <= \awvalid$next ;
   always @* begin
-    \$next\bready  = bready;
-    casez (\$46 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \bready$next  = bready;
+    (* src = "axihp_writer.py:158" *)
+    casez (\$54 )
+      /* src = "axihp_writer.py:158" */
       1'h1:
-          casez (enable)
+          (* src = "axihp_writer.py:160" *)
+          casez (\$60 )
+            /* src = "axihp_writer.py:160" */
             1'h1:
-                \$next\bready  = 1'h1;
+                \bready$next  = 1'h1;
           endcase
-      1'hz:
-          casez (\$48 )
+      /* src = "axihp_writer.py:164" */
+      default:
+          (* src = "axihp_writer.py:165" *)
+          casez (\$62 )
+            /* src = "axihp_writer.py:165" */
             1'h1:
-                \$next\bready  = 1'h0;
+                \bready$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\bready  = 1'h0;
+          \bready$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\m_axi_wo__bready  = 1'h0;
-    \$next\m_axi_wo__bready  = bready;
-  end
-  always @* begin
-    \$next\writer_error  = 1'h0;
-    \$next\writer_error  = \$54 ;
-  end
-  always @* begin
-    \$next\active  = active;
-    casez ({ \$66 , \$60  })
-      2'bz1:
-          \$next\active  = \$68 [3:0];
-      2'b1z:
-          \$next\active  = \$71 [3:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \active$next  = active;
+    (* src = "axihp_writer.py:179" *)
+    casez ({ \$84 , \$76  })
+      /* src = "axihp_writer.py:179" */
+      2'b?1:
+          \active$next  = \$87 [3:0];
+      /* src = "axihp_writer.py:183" */
+      2'b1?:
+          \active$next  = \$90 [3:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\active  = 4'h0;
+          \active$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\unconf  = unconf;
-    casez ({ \$84 , \$78  })
-      2'bz1:
-          \$next\unconf  = \$86 [3:0];
-      2'b1z:
-          \$next\unconf  = \$89 [3:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \unconf$next  = unconf;
+    (* src = "axihp_writer.py:188" *)
+    casez ({ \$102 , \$96  })
+      /* src = "axihp_writer.py:188" */
+      2'b?1:
+          \unconf$next  = \$105 [3:0];
+      /* src = "axihp_writer.py:192" */
+      2'b1?:
+          \unconf$next  = \$108 [3:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\unconf  = 4'h0;
+          \unconf$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\awvalid  = awvalid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \awvalid$next  = awvalid;
+    (* src = "axihp_writer.py:99" *)
     casez (\$7 )
+      /* src = "axihp_writer.py:99" */
       1'h1:
-          casez (\$17 )
+          (* src = "axihp_writer.py:101" *)
+          casez (\$21 )
+            /* src = "axihp_writer.py:101" */
             1'h1:
-                \$next\awvalid  = 1'h1;
+                \awvalid$next  = 1'h1;
           endcase
     endcase
+    (* src = "axihp_writer.py:105" *)
     casez (awvalid)
+      /* src = "axihp_writer.py:105" */
       1'h1:
+          (* src = "axihp_writer.py:106" *)
           casez (m_axi_wi__awready)
+            /* src = "axihp_writer.py:106" */
             1'h1:
-                \$next\awvalid  = 1'h0;
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\awvalid  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\inactive  = 1'h0;
-    \$next\inactive  = \$96 ;
-  end
-  always @* begin
-    \$next\m_axi_wo__awid  = 6'h00;
-    \$next\m_axi_wo__awid  = 6'h00;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__wid  = 6'h00;
-    \$next\m_axi_wo__wid  = 6'h00;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__awlen  = 4'h0;
-    \$next\m_axi_wo__awlen  = awlen_c;
-  end
-  always @* begin
-    \$next\m_axi_wo__awburst  = 2'h0;
-    \$next\m_axi_wo__awburst  = 2'h1;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__awsize  = 2'h0;
-    \$next\m_axi_wo__awsize  = 2'h3;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__wstrb  = 8'h00;
-    \$next\m_axi_wo__wstrb  = write_strobe;
-  end
-  always @* begin
-    \$next\m_axi_wo__awprot  = 3'h0;
-    \$next\m_axi_wo__awprot  = 3'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\data_clk  = 1'h0;
-    \$next\data_clk  = m_axi_aclk;
-  end
-  always @* begin
-    \$next\addr_clk  = 1'h0;
-    \$next\addr_clk  = m_axi_aclk;
-  end
-  always @* begin
-    \$next\m_axi_wo__awaddr  = 32'd0;
-    \$next\m_axi_wo__awaddr  = addr_in;
-  end
-  always @* begin
-    \$next\writer_active  = 4'h0;
-    \$next\writer_active  = active;
-  end
-  always @* begin
-    \$next\writer_unconf  = 4'h0;
-    \$next\writer_unconf  = unconf;
-  end
-  always @* begin
-    \$next\m_axi_wo__awvalid  = 1'h0;
-    \$next\m_axi_wo__awvalid  = awvalid;
-  end
-  always @* begin
-    \$next\addr_enable  = 1'h0;
-    \$next\addr_enable  = addr_en;
-  end
-  always @* begin
-    \$next\counter  = counter;
-    casez (data_en)
-      1'h1:
-          casez (\$19 )
-            1'h1:
-                \$next\counter  = 4'h0;
-            1'hz:
-                \$next\counter  = \$21 [3:0];
+                \awvalid$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \awvalid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wlast  = wlast;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \counter$next  = counter;
+    (* src = "axihp_writer.py:122" *)
     casez (data_en)
+      /* src = "axihp_writer.py:122" */
       1'h1:
-          casez (\$24 )
+          (* src = "axihp_writer.py:123" *)
+          casez (wlast)
+            /* src = "axihp_writer.py:123" */
             1'h1:
-                \$next\wlast  = 1'h1;
-            1'hz:
-                \$next\wlast  = 1'h0;
+                \counter$next  = 4'h0;
+            /* src = "axihp_writer.py:125" */
+            default:
+                \counter$next  = \$24 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\wlast  = 1'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\data_en  = 1'h0;
-    \$next\data_en  = \$30 ;
-  end
-  always @* begin
-    \$next\wvalid  = wvalid;
-    casez (\$32 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \wvalid$next  = wvalid;
+    (* src = "axihp_writer.py:133" *)
+    casez (\$34 )
+      /* src = "axihp_writer.py:133" */
       1'h1:
-          casez (\$38 )
+          (* src = "axihp_writer.py:135" *)
+          casez (\$40 )
+            /* src = "axihp_writer.py:135" */
             1'h1:
-                \$next\wvalid  = 1'h1;
+                \wvalid$next  = 1'h1;
           endcase
-      1'hz:
-          casez (wlast)
+      /* src = "axihp_writer.py:139" */
+      default:
+          (* src = "axihp_writer.py:140" *)
+          casez (\$46 )
+            /* src = "axihp_writer.py:140" */
             1'h1:
-                \$next\wvalid  = 1'h0;
+                \wvalid$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\wvalid  = 1'h0;
+          \wvalid$next  = 1'h0;
     endcase
   end
-  assign \$21  = \$22 ;
-  assign \$68  = \$69 ;
-  assign \$71  = \$72 ;
+  assign \$23  = \$24 ;
   assign \$86  = \$87 ;
   assign \$89  = \$90 ;
-  assign writer_unconf = \$next\writer_unconf ;
-  assign writer_active = \$next\writer_active ;
-  assign addr_clk = \$next\addr_clk ;
-  assign data_clk = \$next\data_clk ;
-  assign m_axi_wo__awprot = \$next\m_axi_wo__awprot ;
-  assign m_axi_wo__wstrb = \$next\m_axi_wo__wstrb ;
-  assign m_axi_wo__awsize = \$next\m_axi_wo__awsize ;
-  assign m_axi_wo__awburst = \$next\m_axi_wo__awburst ;
-  assign m_axi_wo__awlen = \$next\m_axi_wo__awlen ;
-  assign m_axi_wo__wid = \$next\m_axi_wo__wid ;
-  assign m_axi_wo__awid = \$next\m_axi_wo__awid ;
-  assign inactive = \$next\inactive ;
-  assign writer_error = \$next\writer_error ;
-  assign m_axi_wo__bready = \$next\m_axi_wo__bready ;
-  assign resp_en = \$next\resp_en ;
-  assign data_enable = \$next\data_enable ;
-  assign m_axi_wo__wlast = \$next\m_axi_wo__wlast ;
-  assign m_axi_wo__wvalid = \$next\m_axi_wo__wvalid ;
-  assign m_axi_wo__wdata = \$next\m_axi_wo__wdata ;
-  assign data_en = \$next\data_en ;
-  assign addr_enable = \$next\addr_enable ;
-  assign m_axi_wo__awvalid = \$next\m_axi_wo__awvalid ;
-  assign m_axi_wo__awaddr = \$next\m_axi_wo__awaddr ;
-  assign addr_en = \$next\addr_en ;
-  assign awlen_c = \$next\awlen_c ;
+  assign \$104  = \$105 ;
+  assign \$107  = \$108 ;
+  assign writer_unconf = unconf;
+  assign writer_active = active;
+  assign addr_clk = m_axi_aclk;
+  assign data_clk = m_axi_aclk;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awprot = 3'h0;
+  assign m_axi_wo__wstrb = write_strobe;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awsize = 2'h3;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awburst = 2'h1;
+  assign m_axi_wo__awlen = awlen_c;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__wid = 6'h00;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awid = 6'h00;
+  assign inactive = \$114 ;
+  assign writer_error = \$68 ;
+  assign m_axi_wo__bready = bready;
+  assign resp_en = \$52 ;
+  assign data_enable = data_en;
+  assign m_axi_wo__wlast = wlast;
+  assign m_axi_wo__wvalid = wvalid;
+  assign m_axi_wo__wdata = data_in;
+  assign data_en = \$32 ;
+  assign wlast = \$26 ;
+  assign addr_enable = addr_en;
+  assign m_axi_wo__awvalid = awvalid;
+  assign m_axi_wo__awaddr = addr_in;
+  assign addr_en = \$5 ;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign awlen_c = 4'hf;
 endmodule
 
diff --git a/verilog_src/b16_b40.v b/verilog_src/b16_b40.v
index dafb67f..bc4a501 100644
--- a/verilog_src/b16_b40.v
+++ b/verilog_src/b16_b40.v
@@ -1,113 +1,134 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out, full_clk);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, o_busy, i_busy, data_out, data_in, full_clk, full_rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$10  = 0;
+  (* src = "b16_b40.py:85" *)
   wire \$1 ;
+  (* src = "b16_b40.py:82" *)
   wire \$11 ;
+  (* src = "b16_b40.py:82" *)
   wire \$13 ;
+  (* src = "b16_b40.py:82" *)
   wire \$15 ;
+  (* src = "b16_b40.py:82" *)
   wire \$17 ;
+  (* src = "b16_b40.py:85" *)
   wire \$19 ;
+  (* src = "b16_b40.py:85" *)
   wire \$21 ;
+  (* src = "b16_b40.py:85" *)
   wire \$23 ;
+  (* src = "b16_b40.py:87" *)
   wire \$25 ;
+  (* src = "b16_b40.py:85" *)
   wire \$27 ;
+  (* src = "b16_b40.py:85" *)
   wire \$29 ;
+  (* src = "b16_b40.py:85" *)
   wire \$3 ;
+  (* src = "b16_b40.py:85" *)
   wire \$31 ;
+  (* src = "b16_b40.py:88" *)
   wire \$33 ;
+  (* src = "b16_b40.py:85" *)
   wire \$35 ;
+  (* src = "b16_b40.py:85" *)
   wire \$37 ;
+  (* src = "b16_b40.py:85" *)
   wire \$39 ;
+  (* src = "b16_b40.py:90" *)
   wire \$41 ;
+  (* src = "b16_b40.py:99" *)
   wire \$43 ;
+  (* src = "b16_b40.py:121" *)
   wire \$45 ;
+  (* src = "b16_b40.py:136" *)
   wire \$47 ;
+  (* src = "b16_b40.py:154" *)
   wire \$49 ;
+  (* src = "b16_b40.py:85" *)
   wire \$5 ;
+  (* src = "b16_b40.py:99" *)
   wire \$51 ;
+  (* src = "b16_b40.py:121" *)
   wire \$53 ;
+  (* src = "b16_b40.py:136" *)
   wire \$55 ;
+  (* src = "b16_b40.py:154" *)
   wire \$57 ;
+  (* src = "b16_b40.py:121" *)
   wire \$59 ;
+  (* src = "b16_b40.py:136" *)
   wire \$61 ;
-  wire [7:0] \$63 ;
-  wire \$65 ;
+  (* src = "b16_b40.py:121" *)
+  wire \$63 ;
+  (* src = "b16_b40.py:76" *)
   wire \$7 ;
+  (* src = "b16_b40.py:82" *)
   wire \$9 ;
   (* src = "b16_b40.py:66" *)
-  reg \$next\buff_chs ;
-  (* src = "b16_b40.py:58" *)
-  reg [39:0] \$next\buffer1 ;
-  (* src = "b16_b40.py:59" *)
-  reg \$next\buffer1_valid ;
-  (* src = "b16_b40.py:62" *)
-  reg [39:0] \$next\buffer2 ;
-  (* src = "b16_b40.py:63" *)
-  reg \$next\buffer2_valid ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\clk ;
-  (* src = "b16_b40.py:38" *)
-  reg [39:0] \$next\data_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "b16_b40.py:69" *)
-  reg \$next\is_valid ;
-  (* src = "b16_b40.py:44" *)
-  reg \$next\o_busy ;
-  (* src = "b16_b40.py:73" *)
-  reg \$next\temp_8 ;
-  (* src = "b16_b40.py:42" *)
-  reg \$next\valid_out ;
-  (* init = 1'h0 *)
-  (* src = "b16_b40.py:66" *)
   reg buff_chs = 1'h0;
-  (* init = 40'h0000000000 *)
+  (* src = "b16_b40.py:66" *)
+  reg \buff_chs$next ;
   (* src = "b16_b40.py:58" *)
   reg [39:0] buffer1 = 40'h0000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b40.py:58" *)
+  reg [39:0] \buffer1$next ;
   (* src = "b16_b40.py:59" *)
   reg buffer1_valid = 1'h0;
-  (* init = 40'h0000000000 *)
+  (* src = "b16_b40.py:59" *)
+  reg \buffer1_valid$next ;
   (* src = "b16_b40.py:62" *)
   reg [39:0] buffer2 = 40'h0000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b40.py:62" *)
+  reg [39:0] \buffer2$next ;
   (* src = "b16_b40.py:63" *)
   reg buffer2_valid = 1'h0;
+  (* src = "b16_b40.py:63" *)
+  reg \buffer2_valid$next ;
   (* src = "clk_domains.py:5" *)
   wire clk;
   (* src = "b16_b40.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "b16_b40.py:38" *)
   output [39:0] data_out;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  reg [39:0] data_out;
+  (* src = "b16_b40.py:94" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "b16_b40.py:94" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "b16_b40.py:45" *)
   input i_busy;
+  wire i_busy;
   (* src = "b16_b40.py:69" *)
-  wire is_valid;
-  (* init = 1'h0 *)
+  reg is_valid;
   (* src = "b16_b40.py:44" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* init = 1'h0 *)
+  (* src = "b16_b40.py:44" *)
+  reg \o_busy$next ;
+  (* src = "b16_b40.py:73" *)
+  reg [7:0] temp_8 = 8'h00;
   (* src = "b16_b40.py:73" *)
-  reg temp_8 = 1'h0;
+  reg [7:0] \temp_8$next ;
   (* src = "b16_b40.py:41" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "b16_b40.py:42" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "b16_b40.py:42" *)
+  reg \valid_out$next ;
   assign \$9  = buffer1_valid == (* src = "b16_b40.py:82" *) 1'h1;
   assign \$11  = buffer2_valid == (* src = "b16_b40.py:82" *) 1'h1;
   assign \$13  = \$9  | (* src = "b16_b40.py:82" *) \$11 ;
@@ -138,279 +159,488 @@ module top(i_busy, valid_in, data_in, full_rst, rst, valid_out, o_busy, data_out
   assign \$5  = \$1  & (* src = "b16_b40.py:85" *) \$3 ;
   assign \$59  = buffer2_valid == (* src = "b16_b40.py:121" *) 1'h0;
   assign \$61  = buffer2_valid == (* src = "b16_b40.py:136" *) 1'h0;
-  assign \$63  = + (* src = "b16_b40.py:73" *) temp_8;
-  assign \$65  = buffer2_valid == (* src = "b16_b40.py:121" *) 1'h0;
+  assign \$63  = buffer2_valid == (* src = "b16_b40.py:121" *) 1'h0;
   assign \$7  = buff_chs == (* src = "b16_b40.py:76" *) 1'h0;
   always @(posedge full_clk)
-      temp_8 <= \$next\temp_8 ;
+    temp_8 <= \temp_8$next ;
   always @(posedge full_clk)
-      buffer2 <= \$next\buffer2 ;
+    buffer2 <= \buffer2$next ;
   always @(posedge full_clk)
-      buffer1 <= \$next\buffer1 ;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    buffer1 <= \buffer1$next ;
   always @(posedge full_clk)
-      o_busy <= \$next\o_busy ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge full_clk)
-      buffer2_valid <= \$next\buffer2_valid ;
+    o_busy <= \o_busy$next ;
   always @(posedge full_clk)
-      buffer1_valid <= \$next\buffer1_valid ;
+    buffer2_valid <= \buffer2_valid$next ;
   always @(posedge full_clk)
-      buff_chs <= \$next\buff_chs ;
+    buffer1_valid <= \buffer1_valid$next ;
   always @(posedge full_clk)
-      valid_out <= \$next\valid_out ;
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
+    buff_chs <= \buff_chs$next ;
+  always @(posedge full_clk)
+    valid_out <= \valid_out$next ;
   always @* begin
-    \$next\is_valid  = 1'h0;
-    \$next\is_valid  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    is_valid = 1'h1;
+    (* src = "b16_b40.py:85" *)
     casez (\$5 )
+      /* src = "b16_b40.py:85" */
       1'h1:
-          \$next\is_valid  = 1'h0;
+          is_valid = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer2  = buffer2;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \buffer2$next  = buffer2;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
+                (* src = "b16_b40.py:121" *)
                 casez (\$59 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
-                      \$next\buffer2 [39:32] = data_in[7:0];
+                      \buffer2$next [39:32] = data_in[7:0];
                 endcase
           endcase
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
       3'h5:
+          (* src = "b16_b40.py:136" *)
           casez (\$61 )
+            /* src = "b16_b40.py:136" */
             1'h1:
-                \$next\buffer2 [39:32] = \$63 ;
+                \buffer2$next [39:32] = temp_8;
           endcase
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
       3'h4:
+          (* src = "b16_b40.py:142" *)
           casez (valid_in)
+            /* src = "b16_b40.py:142" */
             1'h1:
-                \$next\buffer2 [31:16] = data_in;
+                \buffer2$next [31:16] = data_in;
           endcase
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
-                \$next\buffer2 [15:0] = data_in;
+                \buffer2$next [15:0] = data_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer2  = 40'h0000000000;
+          \buffer2$next  = 40'h0000000000;
     endcase
   end
   always @* begin
-    \$next\temp_8  = temp_8;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \temp_8$next  = temp_8;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
-                casez (\$65 )
+                (* src = "b16_b40.py:121" *)
+                casez (\$63 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\temp_8  = data_in[0];
+                  /* src = "b16_b40.py:125" */
+                  default:
+                      \temp_8$next  = data_in[7:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\temp_8  = 1'h0;
+          \temp_8$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\data_out  = 40'h0000000000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    (* src = "b16_b40.py:76" *)
     casez (\$7 )
+      /* src = "b16_b40.py:76" */
       1'h1:
-          \$next\data_out  = buffer1;
-      1'hz:
-          \$next\data_out  = buffer2;
+          data_out = buffer1;
+      /* src = "b16_b40.py:78" */
+      default:
+          data_out = buffer2;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = \$17 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \valid_out$next  = \$17 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_chs  = buff_chs;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \buff_chs$next  = buff_chs;
+    (* src = "b16_b40.py:85" *)
     casez (\$23 )
+      /* src = "b16_b40.py:85" */
       1'h1:
-          \$next\buff_chs  = \$25 ;
+          \buff_chs$next  = \$25 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buff_chs  = 1'h0;
+          \buff_chs$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1_valid  = buffer1_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \buffer1_valid$next  = buffer1_valid;
+    (* src = "b16_b40.py:85" *)
     casez (\$31 )
+      /* src = "b16_b40.py:85" */
       1'h1:
+          (* src = "b16_b40.py:88" *)
           casez (\$33 )
+            /* src = "b16_b40.py:88" */
             1'h1:
-                \$next\buffer1_valid  = 1'h0;
+                \buffer1_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
-                \$next\buffer1_valid  = 1'h1;
+                \buffer1_valid$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer1_valid  = 1'h0;
+          \buffer1_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer2_valid  = buffer2_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \buffer2_valid$next  = buffer2_valid;
+    (* src = "b16_b40.py:85" *)
     casez (\$39 )
+      /* src = "b16_b40.py:85" */
       1'h1:
+          (* src = "b16_b40.py:90" *)
           casez (\$41 )
+            /* src = "b16_b40.py:90" */
             1'h1:
-                \$next\buffer2_valid  = 1'h0;
+                \buffer2_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      3'h3:
+          /* empty */;
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
+      3'h5:
+          /* empty */;
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
+      3'h4:
+          /* empty */;
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
-                \$next\buffer2_valid  = 1'h1;
+                \buffer2_valid$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer2_valid  = 1'h0;
+          \buffer2_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       3'h0:
+          (* src = "b16_b40.py:99" *)
           casez (\$43 )
+            /* src = "b16_b40.py:99" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
+                (* src = "b16_b40.py:121" *)
                 casez (\$45 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b40.py:125" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
       3'h5:
+          (* src = "b16_b40.py:136" *)
           casez (\$47 )
+            /* src = "b16_b40.py:136" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
+      3'h4:
+          /* empty */;
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
+                (* src = "b16_b40.py:154" *)
                 casez (\$49 )
+                  /* src = "b16_b40.py:154" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b40.py:157" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       3'h0:
+          (* src = "b16_b40.py:99" *)
           casez (\$51 )
+            /* src = "b16_b40.py:99" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       3'h1:
+          (* src = "b16_b40.py:104" *)
           casez (valid_in)
+            /* src = "b16_b40.py:104" */
             1'h1:
-                \$next\fsm_state  = 3'h2;
+                \fsm_state$next  = 3'h2;
           endcase
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       3'h2:
+          (* src = "b16_b40.py:109" *)
           casez (valid_in)
+            /* src = "b16_b40.py:109" */
             1'h1:
-                \$next\fsm_state  = 3'h3;
+                \fsm_state$next  = 3'h3;
           endcase
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
+                (* src = "b16_b40.py:121" *)
                 casez (\$53 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
-                  1'hz:
-                      \$next\fsm_state  = 3'h5;
+                      \fsm_state$next  = 3'h4;
+                  /* src = "b16_b40.py:125" */
+                  default:
+                      \fsm_state$next  = 3'h5;
                 endcase
           endcase
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
       3'h5:
+          (* src = "b16_b40.py:136" *)
           casez (\$55 )
+            /* src = "b16_b40.py:136" */
             1'h1:
-                \$next\fsm_state  = 3'h4;
+                \fsm_state$next  = 3'h4;
           endcase
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
       3'h4:
+          (* src = "b16_b40.py:142" *)
           casez (valid_in)
+            /* src = "b16_b40.py:142" */
             1'h1:
-                \$next\fsm_state  = 3'h6;
+                \fsm_state$next  = 3'h6;
           endcase
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
+                (* src = "b16_b40.py:154" *)
                 casez (\$57 )
+                  /* src = "b16_b40.py:154" */
                   1'h1:
-                      \$next\fsm_state  = 3'h1;
-                  1'hz:
-                      \$next\fsm_state  = 3'h0;
+                      \fsm_state$next  = 3'h1;
+                  /* src = "b16_b40.py:157" */
+                  default:
+                      \fsm_state$next  = 3'h0;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1  = buffer1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$10 ) begin end
+    \buffer1$next  = buffer1;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       3'h1:
+          (* src = "b16_b40.py:104" *)
           casez (valid_in)
+            /* src = "b16_b40.py:104" */
             1'h1:
-                \$next\buffer1 [39:24] = data_in;
+                \buffer1$next [39:24] = data_in;
           endcase
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       3'h2:
+          (* src = "b16_b40.py:109" *)
           casez (valid_in)
+            /* src = "b16_b40.py:109" */
             1'h1:
-                \$next\buffer1 [23:8] = data_in;
+                \buffer1$next [23:8] = data_in;
           endcase
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
-                \$next\buffer1 [7:0] = data_in[15:8];
+                \buffer1$next [7:0] = data_in[15:8];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer1  = 40'h0000000000;
+          \buffer1$next  = 40'h0000000000;
     endcase
   end
-  assign data_out = \$next\data_out ;
-  assign is_valid = \$next\is_valid ;
-  assign clk = \$next\clk ;
+  assign clk = full_clk;
 endmodule
 
diff --git a/verilog_src/b16_b64.v b/verilog_src/b16_b64.v
index 1ec6753..82da15b 100644
--- a/verilog_src/b16_b64.v
+++ b/verilog_src/b16_b64.v
@@ -1,132 +1,168 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(end_in, i_busy, data_in, rst, clk, valid_out, o_busy, data_out, end_out, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, o_busy, i_busy, data_out, data_in, end_in, end_out, clk, rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$13  = 0;
+  (* src = "b16_b64.py:96" *)
   wire \$1 ;
+  (* src = "b16_b64.py:76" *)
   wire \$11 ;
+  (* src = "b16_b64.py:81" *)
   wire \$13 ;
+  (* src = "b16_b64.py:81" *)
   wire \$15 ;
+  (* src = "b16_b64.py:81" *)
   wire \$17 ;
+  (* src = "b16_b64.py:81" *)
   wire \$19 ;
+  (* src = "b16_b64.py:81" *)
   wire \$21 ;
+  (* src = "b16_b64.py:82" *)
   wire [3:0] \$23 ;
+  (* src = "b16_b64.py:82" *)
   wire [3:0] \$24 ;
+  (* src = "b16_b64.py:83" *)
   wire \$26 ;
+  (* src = "b16_b64.py:83" *)
   wire \$28 ;
+  (* src = "b16_b64.py:96" *)
   wire \$3 ;
+  (* src = "b16_b64.py:83" *)
   wire \$30 ;
+  (* src = "b16_b64.py:87" *)
   wire \$32 ;
+  (* src = "b16_b64.py:89" *)
   wire \$34 ;
+  (* src = "b16_b64.py:93" *)
   wire \$36 ;
+  (* src = "b16_b64.py:93" *)
   wire \$38 ;
+  (* src = "b16_b64.py:93" *)
   wire \$40 ;
+  (* src = "b16_b64.py:93" *)
   wire \$42 ;
+  (* src = "b16_b64.py:93" *)
   wire \$44 ;
+  (* src = "b16_b64.py:96" *)
   wire \$46 ;
+  (* src = "b16_b64.py:96" *)
   wire \$48 ;
+  (* src = "b16_b64.py:96" *)
   wire \$5 ;
+  (* src = "b16_b64.py:96" *)
   wire \$50 ;
+  (* src = "b16_b64.py:98" *)
   wire \$52 ;
+  (* src = "b16_b64.py:96" *)
   wire \$54 ;
+  (* src = "b16_b64.py:96" *)
   wire \$56 ;
+  (* src = "b16_b64.py:96" *)
   wire \$58 ;
+  (* src = "b16_b64.py:99" *)
   wire \$60 ;
+  (* src = "b16_b64.py:96" *)
   wire \$62 ;
+  (* src = "b16_b64.py:96" *)
   wire \$64 ;
+  (* src = "b16_b64.py:96" *)
   wire \$66 ;
+  (* src = "b16_b64.py:101" *)
   wire \$68 ;
+  (* src = "b16_b64.py:76" *)
   wire \$7 ;
+  (* src = "b16_b64.py:110" *)
   wire \$70 ;
+  (* src = "b16_b64.py:137" *)
   wire \$72 ;
+  (* src = "b16_b64.py:148" *)
   wire \$74 ;
+  (* src = "b16_b64.py:175" *)
   wire \$76 ;
+  (* src = "b16_b64.py:110" *)
   wire \$78 ;
+  (* src = "b16_b64.py:137" *)
   wire \$80 ;
+  (* src = "b16_b64.py:148" *)
   wire \$82 ;
+  (* src = "b16_b64.py:175" *)
   wire \$84 ;
+  (* src = "b16_b64.py:76" *)
   wire \$9 ;
   (* src = "b16_b64.py:67" *)
-  reg \$next\buff_chs ;
-  (* src = "b16_b64.py:59" *)
-  reg [63:0] \$next\buffer1 ;
-  (* src = "b16_b64.py:60" *)
-  reg \$next\buffer1_valid ;
-  (* src = "b16_b64.py:63" *)
-  reg [63:0] \$next\buffer2 ;
-  (* src = "b16_b64.py:64" *)
-  reg \$next\buffer2_valid ;
-  (* src = "b16_b64.py:80" *)
-  reg [2:0] \$next\counter ;
-  (* src = "b16_b64.py:37" *)
-  reg [63:0] \$next\data_out ;
-  (* src = "b16_b64.py:44" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [3:0] \$next\fsm_state ;
-  (* src = "b16_b64.py:70" *)
-  reg \$next\is_valid ;
-  (* src = "b16_b64.py:46" *)
-  reg \$next\o_busy ;
-  (* src = "b16_b64.py:74" *)
-  reg \$next\reg_end ;
-  (* src = "b16_b64.py:41" *)
-  reg \$next\valid_out ;
-  (* init = 1'h0 *)
-  (* src = "b16_b64.py:67" *)
   reg buff_chs = 1'h0;
-  (* init = 64'h0000000000000000 *)
+  (* src = "b16_b64.py:67" *)
+  reg \buff_chs$next ;
   (* src = "b16_b64.py:59" *)
   reg [63:0] buffer1 = 64'h0000000000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b64.py:59" *)
+  reg [63:0] \buffer1$next ;
   (* src = "b16_b64.py:60" *)
   reg buffer1_valid = 1'h0;
-  (* init = 64'h0000000000000000 *)
+  (* src = "b16_b64.py:60" *)
+  reg \buffer1_valid$next ;
   (* src = "b16_b64.py:63" *)
   reg [63:0] buffer2 = 64'h0000000000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b64.py:63" *)
+  reg [63:0] \buffer2$next ;
   (* src = "b16_b64.py:64" *)
   reg buffer2_valid = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "b16_b64.py:64" *)
+  reg \buffer2_valid$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 3'h0 *)
+  wire clk;
   (* src = "b16_b64.py:80" *)
   reg [2:0] counter = 3'h0;
+  (* src = "b16_b64.py:80" *)
+  reg [2:0] \counter$next ;
   (* src = "b16_b64.py:34" *)
   input [15:0] data_in;
-  (* init = 64'h0000000000000000 *)
+  wire [15:0] data_in;
   (* src = "b16_b64.py:37" *)
   output [63:0] data_out;
   reg [63:0] data_out = 64'h0000000000000000;
+  (* src = "b16_b64.py:37" *)
+  reg [63:0] \data_out$next ;
   (* src = "b16_b64.py:43" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "b16_b64.py:44" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 4'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "b16_b64.py:44" *)
+  reg \end_out$next ;
+  (* src = "b16_b64.py:105" *)
   reg [3:0] fsm_state = 4'h0;
+  (* src = "b16_b64.py:105" *)
+  reg [3:0] \fsm_state$next ;
   (* src = "b16_b64.py:47" *)
   input i_busy;
+  wire i_busy;
   (* src = "b16_b64.py:70" *)
-  wire is_valid;
-  (* init = 1'h0 *)
+  reg is_valid;
   (* src = "b16_b64.py:46" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "b16_b64.py:46" *)
+  reg \o_busy$next ;
   (* src = "b16_b64.py:74" *)
   reg reg_end = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "b16_b64.py:74" *)
+  reg \reg_end$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "b16_b64.py:40" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "b16_b64.py:41" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "b16_b64.py:41" *)
+  reg \valid_out$next ;
   assign \$9  = o_busy == (* src = "b16_b64.py:76" *) 1'h0;
   assign \$11  = \$7  & (* src = "b16_b64.py:76" *) \$9 ;
   assign \$13  = reg_end == (* src = "b16_b64.py:81" *) 1'h1;
@@ -170,313 +206,575 @@ module top(end_in, i_busy, data_in, rst, clk, valid_out, o_busy, data_out, end_o
   assign \$82  = buffer2_valid == (* src = "b16_b64.py:148" *) 1'h0;
   assign \$84  = buffer1_valid == (* src = "b16_b64.py:175" *) 1'h0;
   always @(posedge clk)
-      buffer2 <= \$next\buffer2 ;
+    buffer2 <= \buffer2$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      reg_end <= \$next\reg_end ;
+    reg_end <= \reg_end$next ;
   always @(posedge clk)
-      buffer1 <= \$next\buffer1 ;
+    buffer1 <= \buffer1$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer2_valid <= \$next\buffer2_valid ;
+    buffer2_valid <= \buffer2_valid$next ;
   always @(posedge clk)
-      buffer1_valid <= \$next\buffer1_valid ;
+    buffer1_valid <= \buffer1_valid$next ;
   always @(posedge clk)
-      buff_chs <= \$next\buff_chs ;
+    buff_chs <= \buff_chs$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @* begin
-    \$next\is_valid  = 1'h0;
-    \$next\is_valid  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    is_valid = 1'h1;
+    (* src = "b16_b64.py:96" *)
     casez (\$5 )
+      /* src = "b16_b64.py:96" */
       1'h1:
-          \$next\is_valid  = 1'h0;
+          is_valid = 1'h0;
     endcase
   end
   always @* begin
-    \$next\reg_end  = reg_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \reg_end$next  = reg_end;
+    (* src = "b16_b64.py:76" *)
     casez (\$11 )
+      /* src = "b16_b64.py:76" */
       1'h1:
-          \$next\reg_end  = end_in;
+          \reg_end$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reg_end  = 1'h0;
+          \reg_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       4'h0:
+          (* src = "b16_b64.py:110" *)
           casez (\$78 )
+            /* src = "b16_b64.py:110" */
             1'h1:
-                \$next\fsm_state  = 4'h1;
+                \fsm_state$next  = 4'h1;
           endcase
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       4'h1:
+          (* src = "b16_b64.py:115" *)
           casez (valid_in)
+            /* src = "b16_b64.py:115" */
             1'h1:
-                \$next\fsm_state  = 4'h2;
+                \fsm_state$next  = 4'h2;
           endcase
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       4'h2:
+          (* src = "b16_b64.py:120" *)
           casez (valid_in)
+            /* src = "b16_b64.py:120" */
             1'h1:
-                \$next\fsm_state  = 4'h3;
+                \fsm_state$next  = 4'h3;
           endcase
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       4'h3:
+          (* src = "b16_b64.py:125" *)
           casez (valid_in)
+            /* src = "b16_b64.py:125" */
             1'h1:
-                \$next\fsm_state  = 4'h4;
+                \fsm_state$next  = 4'h4;
           endcase
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
+                (* src = "b16_b64.py:137" *)
                 casez (\$80 )
+                  /* src = "b16_b64.py:137" */
                   1'h1:
-                      \$next\fsm_state  = 4'h5;
-                  1'hz:
-                      \$next\fsm_state  = 4'h6;
+                      \fsm_state$next  = 4'h5;
+                  /* src = "b16_b64.py:140" */
+                  default:
+                      \fsm_state$next  = 4'h6;
                 endcase
           endcase
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
       4'h6:
+          (* src = "b16_b64.py:148" *)
           casez (\$82 )
+            /* src = "b16_b64.py:148" */
             1'h1:
-                \$next\fsm_state  = 4'h5;
+                \fsm_state$next  = 4'h5;
           endcase
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
       4'h5:
+          (* src = "b16_b64.py:153" *)
           casez (valid_in)
+            /* src = "b16_b64.py:153" */
             1'h1:
-                \$next\fsm_state  = 4'h7;
+                \fsm_state$next  = 4'h7;
           endcase
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
       4'h7:
+          (* src = "b16_b64.py:158" *)
           casez (valid_in)
+            /* src = "b16_b64.py:158" */
             1'h1:
-                \$next\fsm_state  = 4'h8;
+                \fsm_state$next  = 4'h8;
           endcase
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
       4'h8:
+          (* src = "b16_b64.py:163" *)
           casez (valid_in)
+            /* src = "b16_b64.py:163" */
             1'h1:
-                \$next\fsm_state  = 4'h9;
+                \fsm_state$next  = 4'h9;
           endcase
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
+                (* src = "b16_b64.py:175" *)
                 casez (\$84 )
+                  /* src = "b16_b64.py:175" */
                   1'h1:
-                      \$next\fsm_state  = 4'h1;
-                  1'hz:
-                      \$next\fsm_state  = 4'h0;
+                      \fsm_state$next  = 4'h1;
+                  /* src = "b16_b64.py:178" */
+                  default:
+                      \fsm_state$next  = 4'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 4'h0;
+          \fsm_state$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1  = buffer1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \buffer1$next  = buffer1;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       4'h1:
+          (* src = "b16_b64.py:115" *)
           casez (valid_in)
+            /* src = "b16_b64.py:115" */
             1'h1:
-                \$next\buffer1 [63:48] = data_in;
+                \buffer1$next [63:48] = data_in;
           endcase
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       4'h2:
+          (* src = "b16_b64.py:120" *)
           casez (valid_in)
+            /* src = "b16_b64.py:120" */
             1'h1:
-                \$next\buffer1 [47:32] = data_in;
+                \buffer1$next [47:32] = data_in;
           endcase
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       4'h3:
+          (* src = "b16_b64.py:125" *)
           casez (valid_in)
+            /* src = "b16_b64.py:125" */
             1'h1:
-                \$next\buffer1 [31:16] = data_in;
+                \buffer1$next [31:16] = data_in;
           endcase
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
-                \$next\buffer1 [15:0] = data_in;
+                \buffer1$next [15:0] = data_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer1  = 64'h0000000000000000;
+          \buffer1$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\buffer2  = buffer2;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \buffer2$next  = buffer2;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
+      4'h4:
+          /* empty */;
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
+      4'h6:
+          /* empty */;
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
       4'h5:
+          (* src = "b16_b64.py:153" *)
           casez (valid_in)
+            /* src = "b16_b64.py:153" */
             1'h1:
-                \$next\buffer2 [63:48] = data_in;
+                \buffer2$next [63:48] = data_in;
           endcase
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
       4'h7:
+          (* src = "b16_b64.py:158" *)
           casez (valid_in)
+            /* src = "b16_b64.py:158" */
             1'h1:
-                \$next\buffer2 [47:32] = data_in;
+                \buffer2$next [47:32] = data_in;
           endcase
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
       4'h8:
+          (* src = "b16_b64.py:163" *)
           casez (valid_in)
+            /* src = "b16_b64.py:163" */
             1'h1:
-                \$next\buffer2 [31:16] = data_in;
+                \buffer2$next [31:16] = data_in;
           endcase
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
-                \$next\buffer2 [15:0] = data_in;
+                \buffer2$next [15:0] = data_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer2  = 64'h0000000000000000;
+          \buffer2$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \counter$next  = counter;
+    (* src = "b16_b64.py:81" *)
     casez (\$21 )
+      /* src = "b16_b64.py:81" */
       1'h1:
-          \$next\counter  = \$23 [2:0];
+          \counter$next  = \$24 [2:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 3'h0;
+          \counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \end_out$next  = end_out;
+    (* src = "b16_b64.py:83" *)
     casez (\$30 )
+      /* src = "b16_b64.py:83" */
       1'h1:
-          \$next\end_out  = 1'h1;
+          \end_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \data_out$next  = data_out;
+    (* src = "b16_b64.py:87" *)
     casez (\$32 )
+      /* src = "b16_b64.py:87" */
       1'h1:
-          \$next\data_out  = buffer1;
+          \data_out$next  = buffer1;
     endcase
+    (* src = "b16_b64.py:89" *)
     casez (\$34 )
+      /* src = "b16_b64.py:89" */
       1'h1:
-          \$next\data_out  = buffer2;
+          \data_out$next  = buffer2;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 64'h0000000000000000;
+          \data_out$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = \$44 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \valid_out$next  = \$44 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_chs  = buff_chs;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \buff_chs$next  = buff_chs;
+    (* src = "b16_b64.py:96" *)
     casez (\$50 )
+      /* src = "b16_b64.py:96" */
       1'h1:
-          \$next\buff_chs  = \$52 ;
+          \buff_chs$next  = \$52 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_chs  = 1'h0;
+          \buff_chs$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1_valid  = buffer1_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \buffer1_valid$next  = buffer1_valid;
+    (* src = "b16_b64.py:96" *)
     casez (\$58 )
+      /* src = "b16_b64.py:96" */
       1'h1:
+          (* src = "b16_b64.py:99" *)
           casez (\$60 )
+            /* src = "b16_b64.py:99" */
             1'h1:
-                \$next\buffer1_valid  = 1'h0;
+                \buffer1_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
-                \$next\buffer1_valid  = 1'h1;
+                \buffer1_valid$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer1_valid  = 1'h0;
+          \buffer1_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer2_valid  = buffer2_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \buffer2_valid$next  = buffer2_valid;
+    (* src = "b16_b64.py:96" *)
     casez (\$66 )
+      /* src = "b16_b64.py:96" */
       1'h1:
+          (* src = "b16_b64.py:101" *)
           casez (\$68 )
+            /* src = "b16_b64.py:101" */
             1'h1:
-                \$next\buffer2_valid  = 1'h0;
+                \buffer2_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
+      4'h4:
+          /* empty */;
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
+      4'h6:
+          /* empty */;
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
+      4'h5:
+          /* empty */;
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
+      4'h8:
+          /* empty */;
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
-                \$next\buffer2_valid  = 1'h1;
+                \buffer2_valid$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer2_valid  = 1'h0;
+          \buffer2_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       4'h0:
+          (* src = "b16_b64.py:110" *)
           casez (\$70 )
+            /* src = "b16_b64.py:110" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
+                (* src = "b16_b64.py:137" *)
                 casez (\$72 )
+                  /* src = "b16_b64.py:137" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b64.py:140" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
       4'h6:
+          (* src = "b16_b64.py:148" *)
           casez (\$74 )
+            /* src = "b16_b64.py:148" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
+      4'h5:
+          /* empty */;
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
+      4'h8:
+          /* empty */;
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
+                (* src = "b16_b64.py:175" *)
                 casez (\$76 )
+                  /* src = "b16_b64.py:175" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b64.py:178" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   assign \$23  = \$24 ;
-  assign is_valid = \$next\is_valid ;
 endmodule
 
diff --git a/verilog_src/b64_b32.v b/verilog_src/b64_b32.v
index 86a10bd..9d66ebf 100644
--- a/verilog_src/b64_b32.v
+++ b/verilog_src/b64_b32.v
@@ -1,126 +1,97 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.fifo32" *)
 (* generator = "nMigen" *)
-module fifo32(we, replace, re, rst, clk, writable, readable, dout, din);
-  wire \$11 ;
+(* \nmigen.hierarchy  = "top.fifo32" *)
+module fifo32(w_data, w_en, r_rdy, r_data, r_en, rst, clk, w_rdy);
+  reg \$auto$verilog_backend.cc:2184:dump_module$17  = 0;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire [2:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$15 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$16 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$18 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire [2:0] \$20 ;
-  wire \$22 ;
-  wire [2:0] \$24 ;
-  wire [2:0] \$25 ;
-  wire \$27 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$20 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$21 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$24 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [3:0] \$26 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [3:0] \$27 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$31 ;
-  wire \$33 ;
-  wire \$34 ;
-  wire \$37 ;
-  wire [3:0] \$39 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$35 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [3:0] \$37 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [3:0] \$38 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire [3:0] \$40 ;
-  wire \$42 ;
-  wire \$44 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire \$49 ;
-  wire \$52 ;
-  wire [3:0] \$54 ;
-  wire [3:0] \$55 ;
-  wire [2:0] \$6 ;
-  wire [2:0] \$7 ;
-  wire \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [1:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [31:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [2:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [1:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [1:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [1:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [31:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 2'h0 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [1:0] consume = 2'h0;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [31:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [31:0] dout;
-  (* init = 3'h0 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [1:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   reg [2:0] level = 3'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [2:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [1:0] produce = 2'h0;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [1:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [31:0] rdport_storage_r_data;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [1:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [31:0] r_data;
+  wire [31:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [1:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [31:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$9  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$11  = we & (* src = "nmigen/lib/fifo.py:161" *) \$9 ;
-  assign \$13  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$15  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$17  = \$13  & (* src = "nmigen/lib/fifo.py:149" *) \$15 ;
-  assign \$20  = produce + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$22  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$25  = consume + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$27  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 3'h4;
-  assign \$29  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$31  = \$27  & (* src = "nmigen/lib/fifo.py:149" *) \$29 ;
-  assign \$34  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$34 ;
-  assign \$37  = \$31  & (* src = "nmigen/lib/fifo.py:177" *) \$33 ;
-  assign \$40  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$42  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$47  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$45  & (* src = "nmigen/lib/fifo.py:149" *) \$47 ;
-  assign \$44  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$49 ;
-  assign \$52  = \$42  & (* src = "nmigen/lib/fifo.py:179" *) \$44 ;
-  assign \$55  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:100" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [1:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [31:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [1:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [31:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [31:0] w_data;
+  wire [31:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [31:0] storage [3:0];
   initial begin
     storage[0] = 32'd0;
@@ -129,700 +100,763 @@ module fifo32(we, replace, re, rst, clk, writable, readable, dout, din);
     storage[3] = 32'd0;
   end
   always @(posedge clk) begin
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = storage[\$next\rdport_storage_r_addr ];
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 2'h0;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [1:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 32'd0;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$11 ;
-  end
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
+  end
+  assign storage_r_data = storage[storage_r_addr];
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 3'h4;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\produce  = produce;
-    casez (\$17 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$17 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$19 [1:0];
+          \produce$next  = \$11 [1:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 2'h0;
+          \produce$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 2'h0;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 32'd0;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$17 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$13 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$24 [1:0];
+          \consume$next  = \$16 [1:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 2'h0;
+          \consume$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\level  = level;
-    casez (\$37 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$17 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$24 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$39 [2:0];
+          \level$next  = \$27 [2:0];
     endcase
-    casez (\$52 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$35 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$54 [2:0];
+          \level$next  = \$38 [2:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 3'h0;
-    endcase
-  end
-  assign \$6  = \$7 ;
-  assign \$19  = \$20 ;
-  assign \$24  = \$25 ;
-  assign \$39  = \$40 ;
-  assign \$54  = \$55 ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+          \level$next  = 3'h0;
+    endcase
+  end
+  assign \$10  = \$11 ;
+  assign \$15  = \$16 ;
+  assign \$26  = \$27 ;
+  assign \$37  = \$38 ;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.fifo64" *)
 (* generator = "nMigen" *)
-module fifo64(we, replace, re, rst, clk, writable, readable, dout, din);
-  wire \$11 ;
+(* \nmigen.hierarchy  = "top.fifo64" *)
+module fifo64(w_rdy, w_data, r_rdy, r_data, r_en, rst, clk, w_en);
+  reg \$auto$verilog_backend.cc:2184:dump_module$18  = 0;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire [1:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$15 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$16 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$18 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire [1:0] \$20 ;
-  wire \$22 ;
-  wire [1:0] \$24 ;
-  wire [1:0] \$25 ;
-  wire \$27 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$20 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$21 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$24 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [2:0] \$26 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [2:0] \$27 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$31 ;
-  wire \$33 ;
-  wire \$34 ;
-  wire \$37 ;
-  wire [2:0] \$39 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$35 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [2:0] \$37 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [2:0] \$38 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire [2:0] \$40 ;
-  wire \$42 ;
-  wire \$44 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire \$49 ;
-  wire \$52 ;
-  wire [2:0] \$54 ;
-  wire [2:0] \$55 ;
-  wire [1:0] \$6 ;
-  wire [1:0] \$7 ;
-  wire \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [63:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [1:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [63:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg consume = 1'h0;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [63:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [63:0] dout;
-  (* init = 2'h0 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   reg [1:0] level = 2'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [1:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg produce = 1'h0;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [63:0] rdport_storage_r_data;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [63:0] r_data;
+  wire [63:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [63:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$9  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$11  = we & (* src = "nmigen/lib/fifo.py:161" *) \$9 ;
-  assign \$13  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$15  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$17  = \$13  & (* src = "nmigen/lib/fifo.py:149" *) \$15 ;
-  assign \$20  = produce + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$22  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$25  = consume + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$27  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 2'h2;
-  assign \$29  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$31  = \$27  & (* src = "nmigen/lib/fifo.py:149" *) \$29 ;
-  assign \$34  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$34 ;
-  assign \$37  = \$31  & (* src = "nmigen/lib/fifo.py:177" *) \$33 ;
-  assign \$40  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$42  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$47  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$45  & (* src = "nmigen/lib/fifo.py:149" *) \$47 ;
-  assign \$44  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$49 ;
-  assign \$52  = \$42  & (* src = "nmigen/lib/fifo.py:179" *) \$44 ;
-  assign \$55  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:100" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [63:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [63:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [63:0] w_data;
+  wire [63:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [63:0] storage [1:0];
   initial begin
     storage[0] = 64'h0000000000000000;
     storage[1] = 64'h0000000000000000;
   end
   always @(posedge clk) begin
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = storage[\$next\rdport_storage_r_addr ];
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 1'h0;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 64'h0000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$11 ;
-  end
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
+  end
+  assign storage_r_data = storage[storage_r_addr];
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 2'h2;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\produce  = produce;
-    casez (\$17 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$18 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$19 [0];
+          \produce$next  = \$11 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 1'h0;
+          \produce$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 1'h0;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 64'h0000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$18 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$13 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$24 [0];
+          \consume$next  = \$16 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 1'h0;
+          \consume$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\level  = level;
-    casez (\$37 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$18 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$24 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$39 [1:0];
+          \level$next  = \$27 [1:0];
     endcase
-    casez (\$52 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$35 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$54 [1:0];
+          \level$next  = \$38 [1:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 2'h0;
-    endcase
-  end
-  assign \$6  = \$7 ;
-  assign \$19  = \$20 ;
-  assign \$24  = \$25 ;
-  assign \$39  = \$40 ;
-  assign \$54  = \$55 ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+          \level$next  = 2'h0;
+    endcase
+  end
+  assign \$10  = \$11 ;
+  assign \$15  = \$16 ;
+  assign \$26  = \$27 ;
+  assign \$37  = \$38 ;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(data_in, i_busy, rst, clk, valid_out, o_busy, data_out, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, o_busy, i_busy, data_out, data_in, clk, rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$19  = 0;
+  (* src = "b64_b32.py:105" *)
   wire \$10 ;
+  (* src = "b64_b32.py:105" *)
   wire \$12 ;
+  (* src = "b64_b32.py:105" *)
   wire \$14 ;
+  (* src = "b64_b32.py:105" *)
   wire \$16 ;
+  (* src = "b64_b32.py:105" *)
   wire \$18 ;
+  (* src = "b64_b32.py:105" *)
   wire \$2 ;
+  (* src = "b64_b32.py:105" *)
   wire \$20 ;
+  (* src = "b64_b32.py:105" *)
   wire \$22 ;
+  (* src = "b64_b32.py:105" *)
   wire \$24 ;
+  (* src = "b64_b32.py:105" *)
   wire \$26 ;
+  (* src = "b64_b32.py:105" *)
   wire \$28 ;
+  (* src = "b64_b32.py:105" *)
   wire \$30 ;
+  (* src = "b64_b32.py:125" *)
   wire \$32 ;
+  (* src = "b64_b32.py:105" *)
   wire \$4 ;
-  wire \$6 ;
-  wire \$8 ;
   (* src = "b64_b32.py:105" *)
-  reg [31:0] \$next\buff ;
-  (* src = "b64_b32.py:38" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [31:0] \$next\fifo32_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo32_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\fifo32_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo32_we ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [63:0] \$next\fifo64_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo64_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\fifo64_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo64_we ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg \$next\fsm_state$1 ;
-  (* src = "b64_b32.py:44" *)
-  reg \$next\o_busy ;
-  (* src = "b64_b32.py:68" *)
-  reg [63:0] \$next\reg ;
-  (* src = "b64_b32.py:42" *)
-  reg \$next\valid_out ;
-  (* init = 32'd0 *)
+  wire \$6 ;
   (* src = "b64_b32.py:105" *)
+  wire \$8 ;
+  (* src = "b64_b32.py:99" *)
   reg [31:0] buff = 32'd0;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "b64_b32.py:99" *)
+  reg [31:0] \buff$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "b64_b32.py:35" *)
   input [63:0] data_in;
+  wire [63:0] data_in;
   (* src = "b64_b32.py:38" *)
   output [31:0] data_out;
-  (* init = 32'd0 *)
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [31:0] fifo32_din = 32'd0;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [31:0] fifo32_dout;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo32_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo32_readable;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg fifo32_replace = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg fifo32_we = 1'h0;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo32_writable;
-  (* init = 64'h0000000000000000 *)
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [63:0] fifo64_din = 64'h0000000000000000;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [63:0] fifo64_dout;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg fifo64_re = 1'h0;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo64_readable;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg fifo64_replace = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg fifo64_we = 1'h0;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo64_writable;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire [31:0] data_out;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [31:0] fifo32_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo32_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo32_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [31:0] fifo32_w_data = 32'd0;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [31:0] \fifo32_w_data$next ;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg fifo32_w_en = 1'h0;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg \fifo32_w_en$next ;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo32_w_rdy;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [63:0] fifo64_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  reg fifo64_r_en = 1'h0;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  reg \fifo64_r_en$next ;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo64_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [63:0] fifo64_w_data = 64'h0000000000000000;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [63:0] \fifo64_w_data$next ;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg fifo64_w_en = 1'h0;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg \fifo64_w_en$next ;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo64_w_rdy;
+  (* src = "b64_b32.py:65" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "b64_b32.py:102" *)
   reg \fsm_state$1  = 1'h0;
+  (* src = "b64_b32.py:102" *)
+  reg \fsm_state$1$next ;
+  (* src = "b64_b32.py:65" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "b64_b32.py:45" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "b64_b32.py:44" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 64'h0000000000000000 *)
-  (* src = "b64_b32.py:68" *)
+  (* src = "b64_b32.py:44" *)
+  reg \o_busy$next ;
+  (* src = "b64_b32.py:62" *)
   reg [63:0] \reg  = 64'h0000000000000000;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "b64_b32.py:62" *)
+  reg [63:0] \reg$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "b64_b32.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "b64_b32.py:42" *)
   output valid_out;
-  assign \$10  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$12  = \$8  & (* src = "b64_b32.py:111" *) \$10 ;
-  assign \$14  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$16  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$18  = \$14  & (* src = "b64_b32.py:111" *) \$16 ;
-  assign \$20  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$22  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$24  = \$20  & (* src = "b64_b32.py:111" *) \$22 ;
-  assign \$26  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$28  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$2  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$30  = \$26  & (* src = "b64_b32.py:111" *) \$28 ;
-  assign \$32  = i_busy == (* src = "b64_b32.py:131" *) 1'h0;
-  assign \$4  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$6  = \$2  & (* src = "b64_b32.py:111" *) \$4 ;
-  assign \$8  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  always @(posedge clk)
-      \fsm_state$1  <= \$next\fsm_state$1 ;
+  wire valid_out;
+  assign \$10  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$12  = \$8  & (* src = "b64_b32.py:105" *) \$10 ;
+  assign \$14  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$16  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$18  = \$14  & (* src = "b64_b32.py:105" *) \$16 ;
+  assign \$20  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$22  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$24  = \$20  & (* src = "b64_b32.py:105" *) \$22 ;
+  assign \$26  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$28  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$2  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$30  = \$26  & (* src = "b64_b32.py:105" *) \$28 ;
+  assign \$32  = i_busy == (* src = "b64_b32.py:125" *) 1'h0;
+  assign \$4  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$6  = \$2  & (* src = "b64_b32.py:105" *) \$4 ;
+  assign \$8  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
   always @(posedge clk)
-      fifo64_we <= \$next\fifo64_we ;
+    \fsm_state$1  <= \fsm_state$1$next ;
   always @(posedge clk)
-      fifo64_replace <= \$next\fifo64_replace ;
+    fifo64_w_en <= \fifo64_w_en$next ;
   always @(posedge clk)
-      fifo32_replace <= \$next\fifo32_replace ;
+    fifo64_r_en <= \fifo64_r_en$next ;
   always @(posedge clk)
-      fifo64_re <= \$next\fifo64_re ;
+    fifo32_w_en <= \fifo32_w_en$next ;
   always @(posedge clk)
-      fifo32_we <= \$next\fifo32_we ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    fifo32_w_data <= \fifo32_w_data$next ;
   always @(posedge clk)
-      fifo32_din <= \$next\fifo32_din ;
+    \reg  <= \reg$next ;
   always @(posedge clk)
-      \reg  <= \$next\reg ;
+    fifo64_w_data <= \fifo64_w_data$next ;
   always @(posedge clk)
-      fifo64_din <= \$next\fifo64_din ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   fifo32 fifo32 (
     .clk(clk),
-    .din(fifo32_din),
-    .dout(fifo32_dout),
-    .re(fifo32_re),
-    .readable(fifo32_readable),
-    .replace(fifo32_replace),
+    .r_data(fifo32_r_data),
+    .r_en(fifo32_r_en),
+    .r_rdy(fifo32_r_rdy),
     .rst(rst),
-    .we(fifo32_we),
-    .writable(fifo32_writable)
+    .w_data(fifo32_w_data),
+    .w_en(fifo32_w_en),
+    .w_rdy(fifo32_w_rdy)
   );
   fifo64 fifo64 (
     .clk(clk),
-    .din(fifo64_din),
-    .dout(fifo64_dout),
-    .re(fifo64_re),
-    .readable(fifo64_readable),
-    .replace(fifo64_replace),
+    .r_data(fifo64_r_data),
+    .r_en(fifo64_r_en),
+    .r_rdy(fifo64_r_rdy),
     .rst(rst),
-    .we(fifo64_we),
-    .writable(fifo64_writable)
+    .w_data(fifo64_w_data),
+    .w_en(fifo64_w_en),
+    .w_rdy(fifo64_w_rdy)
   );
   always @* begin
-    \$next\fifo32_replace  = fifo32_replace;
-    \$next\fifo32_replace  = 1'h0;
-    casez (rst)
-      1'h1:
-          \$next\fifo32_replace  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fifo64_replace  = fifo64_replace;
-    \$next\fifo64_replace  = 1'h0;
-    casez (rst)
-      1'h1:
-          \$next\fifo64_replace  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fifo64_re  = fifo64_re;
-    casez (\fsm_state$1 )
-      1'h0:
-          casez ({ fifo32_writable, \$24  })
-            2'bz1:
-                \$next\fifo64_re  = 1'h1;
-          endcase
-      1'h1:
-          \$next\fifo64_re  = 1'h0;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\fifo64_re  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fsm_state$1  = \fsm_state$1 ;
-    casez (\fsm_state$1 )
-      1'h0:
-          casez ({ fifo32_writable, \$30  })
-            2'bz1:
-                \$next\fsm_state$1  = 1'h1;
-          endcase
-      1'h1:
-          casez (fifo32_writable)
-            1'h1:
-                \$next\fsm_state$1  = 1'h0;
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\fsm_state$1  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo32_readable;
-  end
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out  = fifo32_dout;
-  end
-  always @* begin
-    \$next\fifo32_re  = 1'h0;
-    \$next\fifo32_re  = \$32 ;
-  end
-  always @* begin
-    \$next\fifo64_we  = fifo64_we;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \fifo64_w_en$next  = fifo64_w_en;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
       2'h0:
-          \$next\fifo64_we  = 1'h0;
+          \fifo64_w_en$next  = 1'h0;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\fifo64_we  = 1'h1;
+                      \fifo64_w_en$next  = 1'h1;
                 endcase
           endcase
+      /* src = "b64_b32.py:91" */
+      /* \nmigen.decoding  = "HANDLE_REG/2" */
       2'h2:
-          casez (fifo64_writable)
+          (* src = "b64_b32.py:92" *)
+          casez (fifo64_w_rdy)
+            /* src = "b64_b32.py:92" */
             1'h1:
-                \$next\fifo64_we  = 1'h1;
+                \fifo64_w_en$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fifo64_we  = 1'h0;
+          \fifo64_w_en$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
       2'h0:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\o_busy  = 1'h1;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                      \o_busy$next  = 1'h1;
+                  /* src = "b64_b32.py:84" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
       2'h0:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\fsm_state  = 2'h0;
-                  1'hz:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h0;
+                  /* src = "b64_b32.py:84" */
+                  default:
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
+      /* src = "b64_b32.py:91" */
+      /* \nmigen.decoding  = "HANDLE_REG/2" */
       2'h2:
-          casez (fifo64_writable)
+          (* src = "b64_b32.py:92" *)
+          casez (fifo64_w_rdy)
+            /* src = "b64_b32.py:92" */
             1'h1:
-                \$next\fsm_state  = 2'h0;
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\fifo64_din  = fifo64_din;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \fifo64_w_data$next  = fifo64_w_data;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\fifo64_din  = data_in;
+                      \fifo64_w_data$next  = data_in;
                 endcase
           endcase
+      /* src = "b64_b32.py:91" */
+      /* \nmigen.decoding  = "HANDLE_REG/2" */
       2'h2:
-          casez (fifo64_writable)
+          (* src = "b64_b32.py:92" *)
+          casez (fifo64_w_rdy)
+            /* src = "b64_b32.py:92" */
             1'h1:
-                \$next\fifo64_din  = \reg ;
+                \fifo64_w_data$next  = \reg ;
           endcase
     endcase
   end
   always @* begin
-    \$next\reg  = \reg ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \reg$next  = \reg ;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\reg  = data_in;
+                  /* src = "b64_b32.py:84" */
+                  default:
+                      \reg$next  = data_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reg  = 64'h0000000000000000;
+          \reg$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\fifo32_din  = fifo32_din;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \fifo32_w_data$next  = fifo32_w_data;
+    (* src = "b64_b32.py:102" *)
     casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
       1'h0:
-          casez ({ fifo32_writable, \$6  })
-            2'bz1:
-                \$next\fifo32_din  = fifo64_dout[63:32];
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$6  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fifo32_w_data$next  = fifo64_r_data[63:32];
           endcase
+      /* src = "b64_b32.py:116" */
+      /* \nmigen.decoding  = "PART2/1" */
       1'h1:
-          casez (fifo32_writable)
+          (* src = "b64_b32.py:118" *)
+          casez (fifo32_w_rdy)
+            /* src = "b64_b32.py:118" */
             1'h1:
-                \$next\fifo32_din  = buff;
+                \fifo32_w_data$next  = buff;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$next  = buff;
+    (* src = "b64_b32.py:102" *)
     casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
       1'h0:
-          casez ({ fifo32_writable, \$12  })
-            2'bz1:
-                \$next\buff  = fifo64_dout[31:0];
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$12  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \buff$next  = fifo64_r_data[31:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 32'd0;
+          \buff$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\fifo32_we  = fifo32_we;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \fifo32_w_en$next  = fifo32_w_en;
+    (* src = "b64_b32.py:102" *)
     casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
       1'h0:
-          casez ({ fifo32_writable, \$18  })
-            2'bz1:
-                \$next\fifo32_we  = 1'h1;
-            2'b1z:
-                \$next\fifo32_we  = 1'h0;
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$18  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fifo32_w_en$next  = 1'h1;
+            /* src = "b64_b32.py:113" */
+            2'b1?:
+                \fifo32_w_en$next  = 1'h0;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \fifo32_w_en$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \fifo64_r_en$next  = fifo64_r_en;
+    (* src = "b64_b32.py:102" *)
+    casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
+      1'h0:
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$24  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fifo64_r_en$next  = 1'h1;
+          endcase
+      /* src = "b64_b32.py:116" */
+      /* \nmigen.decoding  = "PART2/1" */
+      1'h1:
+          \fifo64_r_en$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \fifo64_r_en$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \fsm_state$1$next  = \fsm_state$1 ;
+    (* src = "b64_b32.py:102" *)
+    casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
+      1'h0:
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$30  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fsm_state$1$next  = 1'h1;
+          endcase
+      /* src = "b64_b32.py:116" */
+      /* \nmigen.decoding  = "PART2/1" */
+      1'h1:
+          (* src = "b64_b32.py:118" *)
+          casez (fifo32_w_rdy)
+            /* src = "b64_b32.py:118" */
+            1'h1:
+                \fsm_state$1$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fifo32_we  = 1'h0;
+          \fsm_state$1$next  = 1'h0;
     endcase
   end
-  assign fifo32_re = \$next\fifo32_re ;
-  assign data_out = \$next\data_out ;
-  assign valid_out = \$next\valid_out ;
+  assign fifo32_r_en = \$32 ;
+  assign data_out = fifo32_r_data;
+  assign valid_out = fifo32_r_rdy;
 endmodule
 
diff --git a/verilog_src/b64_b32_2.v b/verilog_src/b64_b32_2.v
index d5ecbab..248fb7b 100644
--- a/verilog_src/b64_b32_2.v
+++ b/verilog_src/b64_b32_2.v
@@ -1,130 +1,190 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(valid_in, data_in, i_busy, full_rst, valid_out, o_busy, data_out, full_clk);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, o_busy, i_busy, data_out, data_in, full_clk, full_rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$7  = 0;
+  (* src = "b64_b32_2.py:100" *)
   wire \$1 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$101 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$103 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$105 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$107 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$109 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$11 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$111 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$113 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$115 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$117 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$119 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$121 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$123 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$125 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$127 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$129 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$13 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$131 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$15 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$17 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$19 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$21 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$23 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$25 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$27 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$29 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$3 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$31 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$33 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$35 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$37 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$39 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$41 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$43 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$45 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$47 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$49 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$5 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$51 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$53 ;
+  (* src = "b64_b32_2.py:112" *)
   wire \$55 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$57 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$59 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$61 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$63 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$65 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$67 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$69 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$7 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$71 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$73 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$75 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$77 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$79 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$81 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$83 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$85 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$87 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$89 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$9 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$91 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$93 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$95 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$97 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$99 ;
   (* src = "clk_domains.py:5" *)
-  reg \$next\clk ;
-  (* src = "b64_b32_2.py:42" *)
-  reg [23:0] \$next\data_out ;
-  (* src = "b64_b32_2.py:65" *)
-  reg \$next\half_latched ;
-  (* src = "b64_b32_2.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "b64_b32_2.py:62" *)
-  reg [63:0] \$next\reg ;
-  (* src = "b64_b32_2.py:64" *)
-  reg \$next\reg_tobe_invalid ;
-  (* src = "b64_b32_2.py:63" *)
-  reg \$next\reg_valid ;
-  (* src = "b64_b32_2.py:46" *)
-  reg \$next\valid_out ;
-  (* src = "b64_b32_2.py:68" *)
-  reg \$next\wire_obusy ;
-  (* src = "clk_domains.py:5" *)
   wire clk;
   (* src = "b64_b32_2.py:39" *)
   input [63:0] data_in;
-  (* init = 24'h000000 *)
+  wire [63:0] data_in;
   (* src = "b64_b32_2.py:42" *)
   output [23:0] data_out;
   reg [23:0] data_out = 24'h000000;
+  (* src = "b64_b32_2.py:42" *)
+  reg [23:0] \data_out$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* init = 1'h0 *)
+  wire full_rst;
   (* src = "b64_b32_2.py:65" *)
   reg half_latched = 1'h0;
+  (* src = "b64_b32_2.py:65" *)
+  reg \half_latched$next ;
   (* src = "b64_b32_2.py:49" *)
   input i_busy;
-  (* init = 1'h1 *)
+  wire i_busy;
   (* src = "b64_b32_2.py:48" *)
   output o_busy;
   reg o_busy = 1'h1;
-  (* init = 64'h0000000000000000 *)
+  (* src = "b64_b32_2.py:48" *)
+  reg \o_busy$next ;
   (* src = "b64_b32_2.py:62" *)
   reg [63:0] \reg  = 64'h0000000000000000;
+  (* src = "b64_b32_2.py:62" *)
+  reg [63:0] \reg$next ;
   (* src = "b64_b32_2.py:64" *)
-  wire reg_tobe_invalid;
-  (* init = 1'h0 *)
+  reg reg_tobe_invalid;
   (* src = "b64_b32_2.py:63" *)
   reg reg_valid = 1'h0;
+  (* src = "b64_b32_2.py:63" *)
+  reg \reg_valid$next ;
   (* src = "b64_b32_2.py:45" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "b64_b32_2.py:46" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "b64_b32_2.py:46" *)
+  reg \valid_out$next ;
   (* src = "b64_b32_2.py:68" *)
-  wire wire_obusy;
+  reg wire_obusy;
   assign \$9  = \$5  & (* src = "b64_b32_2.py:100" *) \$7 ;
   assign \$99  = half_latched == (* src = "b64_b32_2.py:101" *) 1'h1;
   assign \$101  = reg_valid == (* src = "b64_b32_2.py:125" *) 1'h0;
@@ -192,146 +252,190 @@ module top(valid_in, data_in, i_busy, full_rst, valid_out, o_busy, data_out, ful
   assign \$95  = valid_out == (* src = "b64_b32_2.py:100" *) 1'h1;
   assign \$97  = \$93  & (* src = "b64_b32_2.py:100" *) \$95 ;
   always @(posedge full_clk)
-      half_latched <= \$next\half_latched ;
+    half_latched <= \half_latched$next ;
   always @(posedge full_clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge full_clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge full_clk)
-      reg_valid <= \$next\reg_valid ;
+    reg_valid <= \reg_valid$next ;
   always @(posedge full_clk)
-      \reg  <= \$next\reg ;
+    \reg  <= \reg$next ;
   always @(posedge full_clk)
-      o_busy <= \$next\o_busy ;
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
+    o_busy <= \o_busy$next ;
   always @* begin
-    \$next\o_busy  = o_busy;
-    \$next\o_busy  = wire_obusy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \o_busy$next  = wire_obusy;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\o_busy  = 1'h1;
+          \o_busy$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\reg_tobe_invalid  = 1'h0;
-    \$next\reg_tobe_invalid  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    reg_tobe_invalid = 1'h0;
+    (* src = "b64_b32_2.py:100" *)
     casez (\$9 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$11 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\reg_tobe_invalid  = 1'h1;
+                reg_tobe_invalid = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\wire_obusy  = 1'h0;
-    \$next\wire_obusy  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    wire_obusy = 1'h1;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$21 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\wire_obusy  = 1'h0;
+          wire_obusy = 1'h0;
     endcase
   end
   always @* begin
-    \$next\reg  = \reg ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \reg$next  = \reg ;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$31 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\reg  = data_in;
+          \reg$next  = data_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\reg  = 64'h0000000000000000;
+          \reg$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\reg_valid  = reg_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \reg_valid$next  = reg_valid;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$41 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\reg_valid  = 1'h1;
+          \reg_valid$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$51 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$53 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
+                (* src = "b64_b32_2.py:112" *)
                 casez (\$55 )
+                  /* src = "b64_b32_2.py:112" */
                   1'h1:
-                      \$next\reg_valid  = 1'h0;
+                      \reg_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\reg_valid  = 1'h0;
+          \reg_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \data_out$next  = data_out;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$65 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\data_out  = \reg [63:40];
+          \data_out$next  = \reg [63:40];
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$75 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$77 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\data_out  = \reg [39:16];
-            1'hz:
-                \$next\data_out  = \reg [63:40];
+                \data_out$next  = \reg [39:16];
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \data_out$next  = \reg [63:40];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\data_out  = 24'h000000;
+          \data_out$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$87 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\valid_out  = 1'h1;
+          \valid_out$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$97 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$99 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\valid_out  = 1'h1;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
     endcase
+    (* src = "b64_b32_2.py:125" *)
     casez (\$109 )
+      /* src = "b64_b32_2.py:125" */
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\half_latched  = half_latched;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \half_latched$next  = half_latched;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$119 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\half_latched  = 1'h1;
+          \half_latched$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$129 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$131 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\half_latched  = 1'h0;
-            1'hz:
-                \$next\half_latched  = 1'h1;
+                \half_latched$next  = 1'h0;
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \half_latched$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\half_latched  = 1'h0;
+          \half_latched$next  = 1'h0;
     endcase
   end
-  assign wire_obusy = \$next\wire_obusy ;
-  assign reg_tobe_invalid = \$next\reg_tobe_invalid ;
-  assign clk = \$next\clk ;
+  assign clk = full_clk;
 endmodule
 
diff --git a/verilog_src/beta_integration.v b/verilog_src/beta_integration.v
index 216c4cd..eb29be0 100644
--- a/verilog_src/beta_integration.v
+++ b/verilog_src/beta_integration.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$136  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$137  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.merge.U$$0" *)
+module \U$$0$3 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$138  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize.U$$1" *)
+module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$139  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,197 +947,292 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -660,591 +1249,379 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode.U$$1" *)
+module \U$$1$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$140  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$3 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$4 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
   always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = \$1 ;
+          \end_late$next  = 1'h0;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 6'h00;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\enc_out  = \$3 [55:0];
+          \ssss_late$next  = 5'h00;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 56'h00000000000000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
-  assign \$3  = \$6 ;
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.auto_reset" *)
 (* generator = "nMigen" *)
-module auto_reset(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+(* \nmigen.hierarchy  = "top.auto_reset" *)
+module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$141  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter" *)
+module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$142  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [29:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [29:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [4:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [5:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [29:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [55:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 30'h00000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [29:0] enc_in;
   reg [29:0] enc_in = 30'h00000000;
-  (* init = 5'h00 *)
+  (* src = "converter.py:66" *)
+  reg [29:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [4:0] enc_in_ctr;
   reg [4:0] enc_in_ctr = 5'h00;
+  (* src = "converter.py:67" *)
+  reg [4:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "converter.py:61" *)
   input [5:0] enc_out_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [5:0] enc_out_ctr_reg = 6'h00;
-  (* init = 30'h00000000 *)
+  (* src = "converter.py:95" *)
+  reg [5:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [29:0] enc_out_latch = 30'h00000000;
-  (* init = 56'h00000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [29:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [55:0] enc_out_reg = 56'h00000000000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [55:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -1265,7 +1642,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[55:30];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[55:30];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 5'h1e;
@@ -1275,715 +1652,894 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[29:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 30'h00000000;
+          \enc_out_latch$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 56'h00000000000000;
+          \enc_out_reg$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 6'h00;
+          \enc_out_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[29:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 30'h00000000;
+          \enc_in$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[4:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[4:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 5'h1e;
+                      \enc_in_ctr$next  = 5'h1e;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [4:0];
+                            \enc_in_ctr$next  = \$52 [4:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 5'h1e;
+          \enc_in_ctr$next  = 5'h1e;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 5'h00;
+          \enc_in_ctr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo" *)
+module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$143  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [29:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [29:0] enc_out;
+  wire [29:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 9'h1fb;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$5  fifo (
+    close_full <= \close_full$next ;
+  \fifo$4  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 36'h000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 30'h00000000;
-    \$next\enc_out  = fifo_dout[29:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = fifo_dout[34:30];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[35];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[35];
+  assign enc_out_ctr = fifo_r_data[34:30];
+  assign enc_out = fifo_r_data[29:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, valid_in);
-  wire [13:0] \$10 ;
-  wire [12:0] \$11 ;
-  wire [13:0] \$13 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.difference" *)
+module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_in, end_in, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$144  = 0;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$12 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$14 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$15 ;
-  wire [12:0] \$16 ;
-  wire [13:0] \$18 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$6 ;
-  wire [12:0] \$8 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$3 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$4 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$5 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "difference.py:98" *)
+  wire [13:0] \$8 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$9 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$11 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$2 ;
+  wire [11:0] \predic_in$2 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:61" *)
   output [12:0] \val_out$3 ;
   reg [12:0] \val_out$3  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$3$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$4 ;
   reg [12:0] \val_out$4  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$4$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$5 ;
   reg [12:0] \val_out$5  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$5$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
-  assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$9  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$12  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$2 ;
+  assign \$15  = \diff$11  - (* src = "difference.py:98" *) 1'h1;
+  assign \$6  = pixel_in - (* src = "difference.py:91" *) predic_in;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$5  <= \$next\val_out$5 ;
+    \val_out$5  <= \val_out$5$next ;
   always @(posedge clk)
-      \val_out$4  <= \$next\val_out$4 ;
+    \val_out$3  <= \val_out$3$next ;
   always @(posedge clk)
-      \val_out$3  <= \$next\val_out$3 ;
+    \val_out$4  <= \val_out$4$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$6 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$6 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$3  = \val_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$4$next  = \val_out$4 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$3  = \$8 ;
+          \val_out$4$next  = \$9 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$3  = 13'h0000;
+          \val_out$4$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \diff$11  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$11  = \$12 ;
     endcase
   end
   always @* begin
-    \$next\val_out$4  = \val_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$3$next  = \val_out$3 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$4  = \$10 [12:0];
+          \val_out$3$next  = \diff$11 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$4  = 13'h0000;
+          \val_out$3$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$5  = \val_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$5$next  = \val_out$5 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$5  = \$15 [12:0];
+          \val_out$5$next  = \$15 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$5  = 13'h0000;
+          \val_out$5$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$10  = \$13 ;
-  assign \$15  = \$18 ;
+  assign \$8  = \$9 ;
+  assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, enc_ctr, \enc_out$3 , \enc_ctr$4 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$4 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$3 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$15 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode" *)
+module encode(rst, val_in, \val_in$1 , ssss, \ssss$2 , valid_in, end_in, enc_out, \enc_out$3 , enc_ctr, \enc_ctr$4 , valid_out, end_out, clk);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$6 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$25 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$18 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$16 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$7 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$17 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$8 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$14 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$5 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$21 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$4 ;
+  wire [4:0] \enc_ctr$4 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$20 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$3 ;
+  wire [27:0] \enc_out$3 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$15 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$10 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$25 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$6 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$26 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$19 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$18 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$7 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$7 ;
+  wire [4:0] \ssss$2 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$17 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$8 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$14 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$5 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$9 ;
-  \anonymous$2  \$13  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$12 ),
-    .enc_out(\enc_out$11 ),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$10 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$7 ),
-    .val_in(\val_in$8 ),
-    .valid_in(\valid_in$5 ),
-    .valid_out(\valid_out$9 )
-  );
-  \anonymous$3  \$22  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$21 ),
-    .enc_out(\enc_out$20 ),
-    .end_in(\end_in$15 ),
-    .rp_addr(\rp_addr$19 ),
-    .rp_data(\rp_data$18 ),
-    .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$17 ),
-    .valid_in(\valid_in$14 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -2000,511 +2556,466 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, e
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$25 ;
-    _1_ <= \$next\mem_r_addr ;
-  end
-  assign \mem_r_data$26  = mem[_0_];
-  assign mem_r_data = mem[_1_];
-  always @* begin
-    \$next\val_in$8  = 12'h000;
-    \$next\val_in$8  = val_in;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$16  = 5'h00;
-    \$next\ssss$16  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$25  = 4'h0;
-    \$next\mem_r_addr$25  = \rp_addr$19 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$18  = 33'h000000000;
-    \$next\rp_data$18  = \mem_r_data$26 ;
-  end
-  always @* begin
-    \$next\enc_out$3  = 28'h0000000;
-    \$next\enc_out$3  = \enc_out$20 ;
-  end
-  always @* begin
-    \$next\enc_ctr$4  = 5'h00;
-    \$next\enc_ctr$4  = \enc_ctr$21 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$9 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$10 ;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$6 ];
   end
-  always @* begin
-    \$next\valid_in$5  = 1'h0;
-    \$next\valid_in$5  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$11 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$12 ;
-  end
-  always @* begin
-    \$next\val_in$17  = 12'h000;
-    \$next\val_in$17  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$15  = 1'h0;
-    \$next\end_in$15  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$4  = \$next\enc_ctr$4 ;
-  assign \enc_out$3  = \$next\enc_out$3 ;
-  assign \rp_data$18  = \$next\rp_data$18 ;
-  assign \mem_r_addr$25  = \$next\mem_r_addr$25 ;
-  assign \ssss$16  = \$next\ssss$16 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \end_in$15  = \$next\end_in$15 ;
-  assign \val_in$17  = \$next\val_in$17 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \valid_in$5  = \$next\valid_in$5 ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign \val_in$8  = \$next\val_in$8 ;
+  assign mem_r_data = _0_;
+  assign \mem_r_data$7  = _1_;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$4  = \U$$1_enc_ctr ;
+  assign \enc_out$3  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$7 ;
+  assign \mem_r_addr$6  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$2 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$145  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 63'h0000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$5 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo" *)
+module \fifo$4 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$6  unbuffered (
-    .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
-    .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
-    .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
-  );
-  always @* begin
-    \$next\unbuffered_din  = 36'h000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
+  output [9:0] level;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
+  wire [8:0] unbuffered_level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$5  unbuffered (
+    .clk(clk),
+    .level(unbuffered_level),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
+    .rst(rst),
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
+  );
   always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_out, data_out_ctr, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.fix_0xff" *)
+module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_out, end_out, data_out_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -2576,449 +3087,673 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_ou
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.fix_0xff2" *)
 (* generator = "nMigen" *)
-module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, data_out, o_busy, end_out, i_busy);
+(* \nmigen.hierarchy  = "top.fix_0xff2" *)
+module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -3131,24 +3866,24 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -3159,1061 +3894,1591 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
-              begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.force_end" *)
+module force_end(rst, allowed_cycles, valid_in, fend, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.input_handler" *)
+module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$150  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [6:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [6:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [76:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [29:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [4:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [4:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [29:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [6:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 7'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [6:0] buff_consum;
   reg [6:0] buff_consum = 7'h00;
-  (* init = 7'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [6:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [6:0] buff_free = 7'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [6:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 77'h00000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [76:0] buffer;
   reg [76:0] buffer = 77'h00000000000000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [76:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [29:0] enc_in;
-  (* init = 30'h00000000 *)
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [29:0] enc_in_buff = 30'h00000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [29:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [4:0] enc_in_ctr;
-  (* init = 5'h00 *)
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [4:0] enc_in_ctr_buff = 5'h00;
-  (* init = 5'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [4:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [4:0] enc_in_ctr_reg = 5'h00;
-  (* init = 30'h00000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [4:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [29:0] enc_in_reg = 30'h00000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [29:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [6:0] new_buff_consum;
+  reg [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [6:0] new_buff_free;
+  reg [6:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4244,509 +5509,697 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 5'h00;
+          \enc_in_ctr_reg$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [76:0];
+          \buffer$next  = \$30 [76:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [76:0];
+                      \buffer$next  = \$37 [76:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 77'h00000000000000000000;
+          \buffer$next  = 77'h00000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    new_buff_free = 7'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [6:0];
-      1'hz:
+          new_buff_free = \$46 [6:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [6:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [6:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [6:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    new_buff_consum = 7'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [6:0];
-      1'hz:
+          new_buff_consum = \$59 [6:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [6:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [6:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [6:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 7'h00;
+          \buff_consum$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 7'h4d;
+          \buff_free$next  = 7'h4d;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 7'h00;
+          \buff_free$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 30'h00000000;
+          \enc_in_buff$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 5'h00;
+          \enc_in_ctr_buff$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
-      2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
-      2'h3:
-          \$next\enc_in_reg  = enc_in;
-      2'h2:
-          \$next\enc_in_reg  = enc_in;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_in_reg  = 30'h00000000;
-    endcase
-  end
-  assign \$27  = \$30 ;
-  assign \$34  = \$37 ;
-  assign \$43  = \$46 ;
-  assign \$48  = \$49 ;
-  assign \$51  = \$52 ;
-  assign \$56  = \$59 ;
-  assign \$61  = \$62 ;
-  assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1" *)
-(* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, fend_out, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$5 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$6 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$15 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$14 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$18 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$19 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$10 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$11 ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
+      2'h2:
+          \enc_in_reg$next  = enc_in;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_in_reg$next  = 30'h00000000;
+    endcase
+  end
+  assign \$27  = \$30 ;
+  assign \$34  = \$37 ;
+  assign \$43  = \$46 ;
+  assign \$48  = \$49 ;
+  assign \$51  = \$52 ;
+  assign \$56  = \$59 ;
+  assign \$61  = \$62 ;
+  assign \$64  = \$65 ;
+  assign buff_change = \$3 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1" *)
+module integration_1(full_clk, rst, full_rst, fend_out, end_of_frame, pixel_in, \pixel_in$1 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -4771,10 +6224,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [55:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [5:0] enc_out_ctr;
+  wire [5:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
@@ -4801,10 +6256,13 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -4813,8 +6271,10 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
@@ -4842,7 +6302,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$12 ;
+  wire [4:0] \normalize_ssss$13 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
@@ -4850,7 +6310,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$13 ;
+  wire [11:0] \normalize_val_out$12 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -4859,10 +6319,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$11 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
@@ -4893,6 +6355,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -4901,10 +6364,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
@@ -4964,11 +6429,11 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .end_out(normalize_end_out),
     .rst(rst),
     .ssss(normalize_ssss),
-    .\ssss$3 (\normalize_ssss$12 ),
+    .\ssss$4 (\normalize_ssss$13 ),
     .val_in(normalize_val_in),
     .\val_in$1 (\normalize_val_in$10 ),
     .val_out(normalize_val_out),
-    .\val_out$4 (\normalize_val_out$13 ),
+    .\val_out$3 (\normalize_val_out$12 ),
     .valid_in(normalize_valid_in),
     .valid_out(normalize_valid_out),
     .vals_in_mns(normalize_vals_in_mns),
@@ -5005,292 +6470,106 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .rst(rst),
     .width(signals_width)
   );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$5  = 12'h000;
-    \$next\difference_pixel_in$5  = \predictor_pixel_out$3 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$6  = 12'h000;
-    \$next\difference_predic_in$6  = \predictor_predic_out$4 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$10  = 13'h0000;
-    \$next\normalize_val_in$10  = \difference_val_out$7 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$8 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$11  = 13'h0000;
-    \$next\normalize_vals_in_mns$11  = \difference_val_out$9 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$14  = 12'h000;
-    \$next\encode_val_in$14  = \normalize_val_out$13 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$15  = 5'h00;
-    \$next\encode_ssss$15  = \normalize_ssss$12 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in$18  = 28'h0000000;
-    \$next\merge_enc_in$18  = \encode_enc_out$16 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$19  = 5'h00;
-    \$next\merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$2  = 12'h000;
-    \$next\predictor_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$19  = \$next\merge_enc_in_ctr$19 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$18  = \$next\merge_enc_in$18 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$15  = \$next\encode_ssss$15 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$14  = \$next\encode_val_in$14 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$11  = \$next\normalize_vals_in_mns$11 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$10  = \$next\normalize_val_in$10 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$6  = \$next\difference_predic_in$6 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$5  = \$next\difference_pixel_in$5 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$2  = \$next\predictor_pixel_in$2 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$18  = \encode_enc_out$16 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$15  = \normalize_ssss$13 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$14  = \normalize_val_out$12 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$11  = \difference_val_out$9 ;
+  assign normalize_vals_in_mns = \difference_val_out$8 ;
+  assign \normalize_val_in$10  = \difference_val_out$7 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$6  = \predictor_predic_out$4 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$5  = \predictor_pixel_out$3 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$2  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, full_clk, nready, enc_out, enc_out_ctr, valid_out, out_end, fend_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2" *)
+module integration_2(full_clk, rst, full_rst, fend_out, pixel_in, \pixel_in$1 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$151  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:61" *)
   wire \$13 ;
+  (* src = "integration_2.py:61" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:62" *)
   wire \$19 ;
+  (* src = "integration_2.py:62" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$3 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$30 ;
+  (* src = "integration_2.py:70" *)
   wire \$32 ;
+  (* src = "integration_2.py:75" *)
   wire \$34 ;
+  (* src = "integration_2.py:75" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:80" *)
   wire \$44 ;
+  (* src = "integration_2.py:80" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:62" *)
   wire \$5 ;
+  (* src = "converter_fifo.py:65" *)
   wire [55:0] \$50 ;
+  (* src = "converter_fifo.py:66" *)
   wire [5:0] \$52 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [55:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [5:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [29:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [4:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [55:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [5:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -5331,34 +6610,40 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [55:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [5:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [55:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [55:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [5:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -5379,69 +6664,80 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$15  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$17  = \$13  | (* src = "integration_2.py:60" *) \$15 ;
-  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$21  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$23  = \$19  & (* src = "integration_2.py:61" *) \$21 ;
-  assign \$25  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$30  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$32  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$36  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$38  = \$34  | (* src = "integration_2.py:74" *) \$36 ;
-  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$40  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$46  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$48  = \$44  & (* src = "integration_2.py:79" *) \$46 ;
+  wire valid_out;
+  assign \$9  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$15  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$17  = \$13  | (* src = "integration_2.py:61" *) \$15 ;
+  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$21  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$23  = \$19  & (* src = "integration_2.py:62" *) \$21 ;
+  assign \$25  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$30  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$32  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$36  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$38  = \$34  | (* src = "integration_2.py:75" *) \$36 ;
+  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$40  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$46  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$48  = \$44  & (* src = "integration_2.py:80" *) \$46 ;
   assign \$50  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$52  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$7  = \$3  & (* src = "integration_2.py:61" *) \$5 ;
+  assign \$5  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$7  = \$3  & (* src = "integration_2.py:62" *) \$5 ;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -5500,248 +6796,150 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$11 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$17 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_end$next  = \$17 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 6'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 56'h00000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 6'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 30'h00000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$27 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 5'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \$50 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \$52 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$29 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_reset_counter$next  = \$30 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$32 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$42 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$2  = 12'h000;
-    \$next\integration_1_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$48 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 56'h00000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
   assign \$29  = \$30 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$2  = \$next\integration_1_pixel_in$2 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$52 ;
+  assign enc_out = \$50 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$48 ;
+  assign \integration_1_pixel_in$2  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$42 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_clk, data_out, valid_out, end_out, nready, fend_out, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [29:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [4:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* \nmigen.hierarchy  = "top.integration_3" *)
+module integration_3(full_clk, rst, full_rst, pixel_in, \pixel_in$1 , valid_in, busy_in, data_out, valid_out, end_out, fend_out, nready, clk);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "integration_3.py:25" *)
+  wire clk;
+  (* src = "integration_3.py:26" *)
   output [15:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [15:0] data_out;
+  (* src = "integration_3.py:31" *)
   output end_out;
-  (* src = "integration_1.py:35" *)
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_2.py:24" *)
-  wire [55:0] integration_2_enc_out;
+  wire full_rst;
   (* src = "integration_2.py:25" *)
-  wire [5:0] integration_2_enc_out_ctr;
+  wire [55:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [5:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -5787,917 +6985,937 @@ module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_c
     .latch_input(vbits_to_cbits_latch_input),
     .rst(rst),
     .valid_in(vbits_to_cbits_valid_in),
-    .valid_out(vbits_to_cbits_valid_out)
-  );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$2  = 12'h000;
-    \$next\integration_2_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 30'h00000000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[29:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 5'h00;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[4:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign \integration_2_pixel_in$2  = \$next\integration_2_pixel_in$2 ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+    .valid_out(vbits_to_cbits_valid_out)
+  );
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[4:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[29:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign \integration_2_pixel_in$2  = \pixel_in$1 ;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$152  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [55:0] enc_in;
+  wire [55:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 9'h1f6;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 63'h0000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = fifo_dout[55:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[61:56];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[62];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[62];
+  assign enc_out_ctr = fifo_r_data[61:56];
+  assign enc_out = fifo_r_data[55:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_out, end_out, data_out, i_busy);
+(* \nmigen.hierarchy  = "top.markers" *)
+module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$153  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
   output o_busy;
+  reg o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      counter <= \$next\counter ;
-  always @(posedge clk)
-      end_cond <= \$next\end_cond ;
-  always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
+  always @(posedge clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge clk)
+    counter <= \counter$next ;
+  always @(posedge clk)
+    end_cond <= \end_cond$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.merge" *)
+module merge(rst, enc_in, \enc_in$1 , enc_in_ctr, \enc_in_ctr$2 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:112" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [5:0] \$next\enc_out_ctr ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$4 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$3 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
+  wire [4:0] \enc_in_ctr$2 ;
   (* src = "merge.py:112" *)
   output [55:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$6 ;
+  wire [55:0] enc_out;
   (* src = "merge.py:113" *)
   output [5:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$5 ;
+  wire [5:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$4 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$8 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$3 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$7 ;
-  \anonymous$4  \$9  (
+  wire valid_out;
+  \U$$0$3  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$6 ),
-    .enc_out_ctr(\enc_out_ctr$5 ),
-    .end_in(\end_in$4 ),
-    .end_out(\end_out$8 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$3 ),
-    .valid_out(\valid_out$7 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\valid_in$3  = 1'h0;
-    \$next\valid_in$3  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$4  = 1'h0;
-    \$next\end_in$4  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \enc_out$6 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$5 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$7 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$8 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$4  = \$next\end_in$4 ;
-  assign \valid_in$3  = \$next\valid_in$3 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_out_ctr = \U$$0_enc_out_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$2 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , rst, clk, ssss, val_out, \ssss$3 , \val_out$4 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize" *)
+module normalize(rst, val_in, \val_in$1 , vals_in_mns, \vals_in_mns$2 , valid_in, end_in, val_out, \val_out$3 , ssss, \ssss$4 , valid_out, end_out, clk);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$6 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$3 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$12 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$5 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$13 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$4 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$11 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$9 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$3 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$8 ;
+  output [4:0] \ssss$4 ;
+  wire [4:0] \ssss$4 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$12 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$13 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$4 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$7 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$11 ;
+  output [11:0] \val_out$3 ;
+  wire [11:0] \val_out$3 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$2 ;
-  anonymous \$10  (
+  wire [12:0] \vals_in_mns$2 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$9 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$8 ),
-    .val_in(\val_in$5 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$7 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$17  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$14 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$12 ),
-    .val_in_mns(\val_in_mns$13 ),
-    .val_out(\val_out$15 ),
-    .valid(\valid$11 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  always @* begin
-    \$next\val_in$5  = 13'h0000;
-    \$next\val_in$5  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out$4  = 12'h000;
-    \$next\val_out$4  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$9 ;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$8 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$7 ;
-  end
-  always @* begin
-    \$next\val_in$12  = 13'h0000;
-    \$next\val_in$12  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$11  = 1'h0;
-    \$next\valid$11  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$13  = 13'h0000;
-    \$next\val_in_mns$13  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$4  = \$next\val_out$4 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \val_in_mns$13  = \$next\val_in_mns$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \valid$11  = \$next\valid$11 ;
-  assign \val_in$12  = \$next\val_in$12 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign valid = \$next\valid ;
-  assign \val_in$5  = \$next\val_in$5 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$3  = \U$$1_val_out ;
+  assign \ssss$4  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$2 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.output_handler" *)
+module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$154  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [3:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [5:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [6:0] buff_consum;
+  wire [6:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [76:0] buffer;
+  wire [76:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 16'h0000 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [15:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [3:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [5:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -6736,148 +7954,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @* begin
-    \$next\shift_right  = 6'h00;
-    \$next\shift_right  = \$1 [5:0];
-  end
-  always @* begin
-    \$next\shift_left  = 4'h0;
-    \$next\shift_left  = \$4 [3:0];
-  end
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [15:0];
+                      \data_out$next  = \$40 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [15:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [15:0];
+                      \data_out$next  = \$52 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -6886,143 +8157,143 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [3:0];
+  assign shift_right = \$2 [5:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.predictor" *)
+module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$155  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$10 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$12 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$14 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$21 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$22 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$27 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$28 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$4 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$6 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$8 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$24 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$25 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$26 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$30 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$31 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$32 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out$3 ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$24  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$24$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$25  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$25$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$26  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$26$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg buff_ctr = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$30  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$30$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$31  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$31$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$32  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$32$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg lbuff_ctr = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] \pixel_in$1 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] \pixel_out$2 ;
   reg [11:0] \pixel_out$2  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$2$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] \predic_out$3 ;
   reg [11:0] \predic_out$3  = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$10  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$12  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$14  = \$10  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$12 ;
@@ -7034,452 +8305,577 @@ module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \
   assign \$6  = new_row == (* src = "predictor_p1_c4_pix1_2.py:115" *) 1'h1;
   assign \$8  = \$4  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$6 ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \predic_out$3  <= \$next\predic_out$3 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$32  <= \$next\lbuff$32 ;
+    \lbuff$32  <= \lbuff$32$next ;
   always @(posedge clk)
-      \lbuff$31  <= \$next\lbuff$31 ;
+    \lbuff$31  <= \lbuff$31$next ;
   always @(posedge clk)
-      \lbuff$30  <= \$next\lbuff$30 ;
+    \lbuff$30  <= \lbuff$30$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$26  <= \$next\buff$26 ;
+    \buff$26  <= \buff$26$next ;
   always @(posedge clk)
-      \buff$25  <= \$next\buff$25 ;
+    \buff$25  <= \buff$25$next ;
   always @(posedge clk)
-      \buff$24  <= \$next\buff$24 ;
+    \buff$24  <= \buff$24$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      \pixel_out$2  <= \$next\pixel_out$2 ;
+    \pixel_out$2  <= \pixel_out$2$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$14 , \$8  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$16 ;
-  end
-  always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$27 [0];
+                \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 1'h0;
+          \lbuff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$30  = \lbuff$30 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$30$next  = \lbuff$30 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff$30  = \pixel_in$1 ;
+                      \lbuff$30$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$30  = 12'h800;
+          \lbuff$30$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$31  = \lbuff$31 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$31$next  = \lbuff$31 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$31  = pixel_in;
+                      \lbuff$31$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$31  = 12'h800;
+          \lbuff$31$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$32  = \lbuff$32 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$32$next  = \lbuff$32 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$32  = \pixel_in$1 ;
+                      \lbuff$32$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$32  = 12'h800;
+          \lbuff$32$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out  = \lbuff$31 ;
+                      \predic_out$next  = \lbuff$31 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out  = \buff$25 ;
+                      \predic_out$next  = \buff$25 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$3  = \predic_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out$3  = \lbuff$30 ;
+                      \predic_out$3$next  = \lbuff$30 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out$3  = \lbuff$32 ;
+                      \predic_out$3$next  = \lbuff$32 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out$3  = \buff$24 ;
+                      \predic_out$3$next  = \buff$24 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out$3  = \buff$26 ;
+                      \predic_out$3$next  = \buff$26 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$3  = 12'h000;
+          \predic_out$3$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$18 [31:0];
+          \debug_counter$next  = \$19 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$2  = \pixel_out$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \pixel_out$2$next  = \pixel_out$2 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out$2  = \pixel_in$1 ;
+          \pixel_out$2$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$2  = 12'h000;
+          \pixel_out$2$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$21 [0];
+          \buff_ctr$next  = \$22 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 1'h0;
+          \buff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$24  = \buff$24 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$24$next  = \buff$24 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff$24  = \pixel_in$1 ;
+                \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$24  = 12'h800;
+          \buff$24$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$25  = \buff$25 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$25$next  = \buff$25 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$25  = pixel_in;
+                \buff$25$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$25  = 12'h800;
+          \buff$25$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$26  = \buff$26 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$26$next  = \buff$26 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$26  = \pixel_in$1 ;
+                \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$26  = 12'h800;
+          \buff$26$next  = 12'h800;
     endcase
   end
   assign \$18  = \$19 ;
   assign \$21  = \$22 ;
   assign \$27  = \$28 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$16 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_clk, width, height, allowed_cycles, full_rst);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.register_file" *)
+module register_file(full_rst, height, width, allowed_cycles, full_clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$156  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.signals" *)
+module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$157  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -7494,124 +8890,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 2'h2;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7620,69 +9085,23 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out, nready, data_out, full_clk);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, end_out, pixel_in1, pixel_in2, nready, data_out, busy_in, full_clk, full_rst, valid_in);
+  (* src = "beta_integration.py:131" *)
+  wire \$10 ;
+  (* src = "beta_integration.py:131" *)
+  wire \$12 ;
+  (* src = "beta_integration.py:69" *)
   wire \$2 ;
+  (* src = "beta_integration.py:69" *)
   wire \$4 ;
+  (* src = "beta_integration.py:69" *)
   wire \$6 ;
+  (* src = "beta_integration.py:76" *)
   wire \$8 ;
   (* src = "auto_reset.py:34" *)
-  reg \$next\auto_reset_end_in ;
-  (* src = "auto_reset.py:37" *)
-  reg \$next\auto_reset_hs1_in ;
-  (* src = "auto_reset.py:40" *)
-  reg \$next\auto_reset_hs2_in ;
-  (* src = "beta_integration.py:36" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "beta_integration.py:41" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:149" *)
-  reg [31:0] \$next\fix_0xff2_data_in ;
-  (* src = "fix_0xff2.py:150" *)
-  reg [2:0] \$next\fix_0xff2_data_in_ctr ;
-  (* src = "fix_0xff2.py:159" *)
-  reg \$next\fix_0xff2_end_in ;
-  (* src = "fix_0xff2.py:163" *)
-  reg \$next\fix_0xff2_i_busy ;
-  (* src = "fix_0xff2.py:156" *)
-  reg \$next\fix_0xff2_valid_in ;
-  (* src = "fix_0xff.py:69" *)
-  reg [15:0] \$next\fix_0xff_data_in ;
-  (* src = "fix_0xff.py:81" *)
-  reg \$next\fix_0xff_end_in ;
-  (* src = "fix_0xff.py:79" *)
-  reg \$next\fix_0xff_i_busy ;
-  (* src = "fix_0xff.py:76" *)
-  reg \$next\fix_0xff_valid_in ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\integration_3_busy_in ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\integration_3_clk ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in$1 ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\integration_3_rst ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\integration_3_valid_in ;
-  (* src = "markers.py:35" *)
-  reg [15:0] \$next\markers_data_in ;
-  (* src = "markers.py:44" *)
-  reg \$next\markers_end_in ;
-  (* src = "markers.py:45" *)
-  reg \$next\markers_force_end_in ;
-  (* src = "markers.py:49" *)
-  reg \$next\markers_i_busy ;
-  (* src = "markers.py:41" *)
-  reg \$next\markers_valid_in ;
-  (* src = "beta_integration.py:42" *)
-  reg \$next\nready ;
-  (* src = "beta_integration.py:40" *)
-  reg \$next\valid_out ;
-  (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
   (* src = "auto_reset.py:37" *)
   wire auto_reset_hs1_in;
@@ -7692,10 +9111,13 @@ module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out
   wire auto_reset_reset_out;
   (* src = "beta_integration.py:43" *)
   input busy_in;
+  wire busy_in;
   (* src = "beta_integration.py:36" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "beta_integration.py:41" *)
   output end_out;
+  wire end_out;
   (* src = "fix_0xff2.py:149" *)
   wire [31:0] fix_0xff2_data_in;
   (* src = "fix_0xff2.py:150" *)
@@ -7734,29 +9156,31 @@ module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out
   wire fix_0xff_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3.py:32" *)
+  wire full_rst;
+  (* src = "integration_3.py:33" *)
   wire integration_3_busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   wire integration_3_clk;
-  (* src = "integration_3.py:25" *)
+  (* src = "integration_3.py:26" *)
   wire [15:0] integration_3_data_out;
-  (* src = "integration_3.py:30" *)
+  (* src = "integration_3.py:31" *)
   wire integration_3_end_out;
-  (* src = "integration_1.py:35" *)
+  (* src = "integration_1.py:36" *)
   wire integration_3_fend_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   wire integration_3_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] integration_3_pixel_in;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \integration_3_pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   wire integration_3_rst;
-  (* src = "integration_3.py:28" *)
-  wire integration_3_valid_in;
   (* src = "integration_3.py:29" *)
+  wire integration_3_valid_in;
+  (* src = "integration_3.py:30" *)
   wire integration_3_valid_out;
   (* src = "markers.py:35" *)
   wire [15:0] markers_data_in;
@@ -7778,14 +9202,21 @@ module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out
   wire markers_valid_out;
   (* src = "beta_integration.py:42" *)
   output nready;
+  wire nready;
   (* src = "beta_integration.py:32" *)
   input [11:0] pixel_in1;
+  wire [11:0] pixel_in1;
   (* src = "beta_integration.py:33" *)
   input [11:0] pixel_in2;
+  wire [11:0] pixel_in2;
   (* src = "beta_integration.py:39" *)
   input valid_in;
+  wire valid_in;
   (* src = "beta_integration.py:40" *)
   output valid_out;
+  wire valid_out;
+  assign \$10  = auto_reset_reset_out == (* src = "beta_integration.py:131" *) 1'h0;
+  assign \$12  = markers_valid_out & (* src = "beta_integration.py:131" *) \$10 ;
   assign \$2  = auto_reset_reset_out == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
@@ -7852,281 +9283,138 @@ module top(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, valid_out, end_out
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
   );
-  always @* begin
-    \$next\integration_3_clk  = 1'h0;
-    \$next\integration_3_clk  = full_clk;
-  end
-  always @* begin
-    \$next\integration_3_rst  = 1'h0;
-    \$next\integration_3_rst  = \$6 ;
-  end
-  always @* begin
-    \$next\fix_0xff_valid_in  = 1'h0;
-    \$next\fix_0xff_valid_in  = integration_3_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff_end_in  = 1'h0;
-    \$next\fix_0xff_end_in  = integration_3_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff_i_busy  = 1'h0;
-    \$next\fix_0xff_i_busy  = fix_0xff2_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in  = 32'd0;
-    \$next\fix_0xff2_data_in  = fix_0xff_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_valid_in  = 1'h0;
-    \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_end_in  = 1'h0;
-    \$next\fix_0xff2_end_in  = fix_0xff_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = markers_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in_ctr  = 3'h0;
-    \$next\fix_0xff2_data_in_ctr  = fix_0xff_data_out_ctr;
-  end
-  always @* begin
-    \$next\markers_data_in  = 16'h0000;
-    \$next\markers_data_in  = fix_0xff2_data_out;
-  end
-  always @* begin
-    \$next\markers_valid_in  = 1'h0;
-    \$next\markers_valid_in  = fix_0xff2_valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_end_in  = 1'h0;
-    \$next\auto_reset_end_in  = end_out;
-  end
-  always @* begin
-    \$next\markers_force_end_in  = 1'h0;
-    \$next\markers_force_end_in  = integration_3_fend_out;
-  end
-  always @* begin
-    \$next\markers_end_in  = 1'h0;
-    \$next\markers_end_in  = fix_0xff2_end_out;
-  end
-  always @* begin
-    \$next\markers_i_busy  = 1'h0;
-    \$next\markers_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = markers_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = markers_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_3_nready;
-  end
-  always @* begin
-    \$next\auto_reset_hs1_in  = 1'h0;
-    \$next\auto_reset_hs1_in  = valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_hs2_in  = 1'h0;
-    \$next\auto_reset_hs2_in  = \$8 ;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in  = 12'h000;
-    \$next\integration_3_pixel_in  = pixel_in1;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in$1  = 12'h000;
-    \$next\integration_3_pixel_in$1  = pixel_in2;
-  end
-  always @* begin
-    \$next\integration_3_valid_in  = 1'h0;
-    \$next\integration_3_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_3_busy_in  = 1'h0;
-    \$next\integration_3_busy_in  = fix_0xff_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff_data_in  = 16'h0000;
-    \$next\fix_0xff_data_in  = integration_3_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign markers_i_busy = \$next\markers_i_busy ;
-  assign markers_end_in = \$next\markers_end_in ;
-  assign markers_force_end_in = \$next\markers_force_end_in ;
-  assign markers_valid_in = \$next\markers_valid_in ;
-  assign markers_data_in = \$next\markers_data_in ;
-  assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
-  assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
-  assign fix_0xff2_end_in = \$next\fix_0xff2_end_in ;
-  assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
-  assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
-  assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
-  assign fix_0xff_end_in = \$next\fix_0xff_end_in ;
-  assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
-  assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
-  assign integration_3_busy_in = \$next\integration_3_busy_in ;
-  assign integration_3_valid_in = \$next\integration_3_valid_in ;
-  assign \integration_3_pixel_in$1  = \$next\integration_3_pixel_in$1 ;
-  assign integration_3_pixel_in = \$next\integration_3_pixel_in ;
-  assign auto_reset_hs2_in = \$next\auto_reset_hs2_in ;
-  assign auto_reset_hs1_in = \$next\auto_reset_hs1_in ;
-  assign auto_reset_end_in = \$next\auto_reset_end_in ;
-  assign integration_3_rst = \$next\integration_3_rst ;
-  assign integration_3_clk = \$next\integration_3_clk ;
+  assign nready = integration_3_nready;
+  assign end_out = markers_end_out;
+  assign valid_out = \$12 ;
+  assign data_out = markers_data_out;
+  assign markers_i_busy = busy_in;
+  assign markers_end_in = fix_0xff2_end_out;
+  assign markers_force_end_in = integration_3_fend_out;
+  assign markers_valid_in = fix_0xff2_valid_out;
+  assign markers_data_in = fix_0xff2_data_out;
+  assign fix_0xff2_data_in_ctr = fix_0xff_data_out_ctr;
+  assign fix_0xff2_i_busy = markers_o_busy;
+  assign fix_0xff2_end_in = fix_0xff_end_out;
+  assign fix_0xff2_valid_in = fix_0xff_valid_out;
+  assign fix_0xff2_data_in = fix_0xff_data_out;
+  assign fix_0xff_i_busy = fix_0xff2_o_busy;
+  assign fix_0xff_end_in = integration_3_end_out;
+  assign fix_0xff_valid_in = integration_3_valid_out;
+  assign fix_0xff_data_in = integration_3_data_out;
+  assign integration_3_busy_in = fix_0xff_o_busy;
+  assign integration_3_valid_in = valid_in;
+  assign \integration_3_pixel_in$1  = pixel_in2;
+  assign integration_3_pixel_in = pixel_in1;
+  assign auto_reset_hs2_in = \$8 ;
+  assign auto_reset_hs1_in = valid_out;
+  assign auto_reset_end_in = end_out;
+  assign integration_3_rst = \$6 ;
+  assign integration_3_clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$158  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [62:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [62:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [62:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [62:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [62:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [62:0] storage [510:0];
   initial begin
     storage[0] = 63'h0000000000000000;
@@ -8641,238 +9929,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[509] = 63'h0000000000000000;
     storage[510] = 63'h0000000000000000;
   end
-  reg [62:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [62:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 63'h0000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$5 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$159  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [35:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [35:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [35:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [35:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [35:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [35:0] storage [510:0];
   initial begin
     storage[0] = 36'h000000000;
@@ -9387,145 +10649,133 @@ module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level
     storage[509] = 36'h000000000;
     storage[510] = 36'h000000000;
   end
-  reg [35:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [35:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 36'h000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [29:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [4:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [6:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [76:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits" *)
+module vbits_to_cbits(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, clk);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [6:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -9548,6 +10798,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -9568,10 +10819,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -9598,75 +10852,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 30'h00000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 5'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 77'h00000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 7'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 7'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/beta_integration_axistream.v b/verilog_src/beta_integration_axistream.v
index 0199c4a..8ce2e5f 100644
--- a/verilog_src/beta_integration_axistream.v
+++ b/verilog_src/beta_integration_axistream.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$136  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$137  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge.U$$0" *)
+module \U$$0$3 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$138  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.U$$1" *)
+module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$139  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,197 +947,292 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -660,591 +1249,379 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.U$$1" *)
+module \U$$1$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$140  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$3 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$4 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 56'h00000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$3  = \$6 ;
-endmodule
-
 (* \nmigen.hierarchy  = "top.top_module.auto_reset" *)
-(* generator = "nMigen" *)
-module auto_reset(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$141  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
+module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$142  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [29:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [29:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [4:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [5:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [29:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [55:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 30'h00000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [29:0] enc_in;
   reg [29:0] enc_in = 30'h00000000;
-  (* init = 5'h00 *)
+  (* src = "converter.py:66" *)
+  reg [29:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [4:0] enc_in_ctr;
   reg [4:0] enc_in_ctr = 5'h00;
+  (* src = "converter.py:67" *)
+  reg [4:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "converter.py:61" *)
   input [5:0] enc_out_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [5:0] enc_out_ctr_reg = 6'h00;
-  (* init = 30'h00000000 *)
+  (* src = "converter.py:95" *)
+  reg [5:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [29:0] enc_out_latch = 30'h00000000;
-  (* init = 56'h00000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [29:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [55:0] enc_out_reg = 56'h00000000000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [55:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -1265,7 +1642,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[55:30];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[55:30];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 5'h1e;
@@ -1275,715 +1652,894 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[29:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 30'h00000000;
+          \enc_out_latch$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 56'h00000000000000;
+          \enc_out_reg$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 6'h00;
+          \enc_out_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[29:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 30'h00000000;
+          \enc_in$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[4:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[4:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 5'h1e;
+                      \enc_in_ctr$next  = 5'h1e;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [4:0];
+                            \enc_in_ctr$next  = \$52 [4:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 5'h1e;
+          \enc_in_ctr$next  = 5'h1e;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 5'h00;
+          \enc_in_ctr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
+module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$143  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [29:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [29:0] enc_out;
+  wire [29:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 9'h1fb;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$5  fifo (
+    close_full <= \close_full$next ;
+  \fifo$4  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 36'h000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 30'h00000000;
-    \$next\enc_out  = fifo_dout[29:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = fifo_dout[34:30];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[35];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[35];
+  assign enc_out_ctr = fifo_r_data[34:30];
+  assign enc_out = fifo_r_data[29:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, valid_in);
-  wire [13:0] \$10 ;
-  wire [12:0] \$11 ;
-  wire [13:0] \$13 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
+module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_in, end_in, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$144  = 0;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$12 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$14 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$15 ;
-  wire [12:0] \$16 ;
-  wire [13:0] \$18 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$6 ;
-  wire [12:0] \$8 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$3 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$4 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$5 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "difference.py:98" *)
+  wire [13:0] \$8 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$9 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$11 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$2 ;
+  wire [11:0] \predic_in$2 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:61" *)
   output [12:0] \val_out$3 ;
   reg [12:0] \val_out$3  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$3$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$4 ;
   reg [12:0] \val_out$4  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$4$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$5 ;
   reg [12:0] \val_out$5  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$5$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
-  assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$9  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$12  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$2 ;
+  assign \$15  = \diff$11  - (* src = "difference.py:98" *) 1'h1;
+  assign \$6  = pixel_in - (* src = "difference.py:91" *) predic_in;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$5  <= \$next\val_out$5 ;
+    \val_out$5  <= \val_out$5$next ;
   always @(posedge clk)
-      \val_out$4  <= \$next\val_out$4 ;
+    \val_out$3  <= \val_out$3$next ;
   always @(posedge clk)
-      \val_out$3  <= \$next\val_out$3 ;
+    \val_out$4  <= \val_out$4$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$6 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$6 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$3  = \val_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$4$next  = \val_out$4 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$3  = \$8 ;
+          \val_out$4$next  = \$9 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$3  = 13'h0000;
+          \val_out$4$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \diff$11  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$11  = \$12 ;
     endcase
   end
   always @* begin
-    \$next\val_out$4  = \val_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$3$next  = \val_out$3 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$4  = \$10 [12:0];
+          \val_out$3$next  = \diff$11 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$4  = 13'h0000;
+          \val_out$3$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$5  = \val_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \val_out$5$next  = \val_out$5 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$5  = \$15 [12:0];
+          \val_out$5$next  = \$15 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$5  = 13'h0000;
+          \val_out$5$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$10  = \$13 ;
-  assign \$15  = \$18 ;
+  assign \$8  = \$9 ;
+  assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, enc_ctr, \enc_out$3 , \enc_ctr$4 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$4 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$3 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
+module encode(rst, val_in, \val_in$1 , ssss, \ssss$2 , valid_in, end_in, enc_out, \enc_out$3 , enc_ctr, \enc_ctr$4 , valid_out, end_out, clk);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$6 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$25 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$18 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$16 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$7 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$17 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$8 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$14 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$5 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$21 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$4 ;
+  wire [4:0] \enc_ctr$4 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$20 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$3 ;
+  wire [27:0] \enc_out$3 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$15 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$10 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$25 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$6 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$26 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$19 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$18 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$7 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$7 ;
+  wire [4:0] \ssss$2 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$17 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$8 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$14 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$5 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$9 ;
-  \anonymous$2  \$13  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$12 ),
-    .enc_out(\enc_out$11 ),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$10 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$7 ),
-    .val_in(\val_in$8 ),
-    .valid_in(\valid_in$5 ),
-    .valid_out(\valid_out$9 )
-  );
-  \anonymous$3  \$22  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$21 ),
-    .enc_out(\enc_out$20 ),
-    .end_in(\end_in$15 ),
-    .rp_addr(\rp_addr$19 ),
-    .rp_data(\rp_data$18 ),
-    .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$17 ),
-    .valid_in(\valid_in$14 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -2000,511 +2556,466 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, e
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$25 ;
-    _1_ <= \$next\mem_r_addr ;
-  end
-  assign \mem_r_data$26  = mem[_0_];
-  assign mem_r_data = mem[_1_];
-  always @* begin
-    \$next\val_in$8  = 12'h000;
-    \$next\val_in$8  = val_in;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$16  = 5'h00;
-    \$next\ssss$16  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$25  = 4'h0;
-    \$next\mem_r_addr$25  = \rp_addr$19 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$18  = 33'h000000000;
-    \$next\rp_data$18  = \mem_r_data$26 ;
-  end
-  always @* begin
-    \$next\enc_out$3  = 28'h0000000;
-    \$next\enc_out$3  = \enc_out$20 ;
-  end
-  always @* begin
-    \$next\enc_ctr$4  = 5'h00;
-    \$next\enc_ctr$4  = \enc_ctr$21 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$9 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$10 ;
-  end
-  always @* begin
-    \$next\valid_in$5  = 1'h0;
-    \$next\valid_in$5  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$11 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$12 ;
-  end
-  always @* begin
-    \$next\val_in$17  = 12'h000;
-    \$next\val_in$17  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$15  = 1'h0;
-    \$next\end_in$15  = end_in;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$6 ];
   end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$4  = \$next\enc_ctr$4 ;
-  assign \enc_out$3  = \$next\enc_out$3 ;
-  assign \rp_data$18  = \$next\rp_data$18 ;
-  assign \mem_r_addr$25  = \$next\mem_r_addr$25 ;
-  assign \ssss$16  = \$next\ssss$16 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \end_in$15  = \$next\end_in$15 ;
-  assign \val_in$17  = \$next\val_in$17 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \valid_in$5  = \$next\valid_in$5 ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign \val_in$8  = \$next\val_in$8 ;
+  assign mem_r_data = _0_;
+  assign \mem_r_data$7  = _1_;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$4  = \U$$1_enc_ctr ;
+  assign \enc_out$3  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$7 ;
+  assign \mem_r_addr$6  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$2 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$145  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 63'h0000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$5 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
+module \fifo$4 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$6  unbuffered (
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$5  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 36'h000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_out, data_out_ctr, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
+module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_out, end_out, data_out_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -2576,449 +3087,673 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_ou
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
 (* generator = "nMigen" *)
-module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, data_out, o_busy, end_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
+module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -3131,24 +3866,24 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -3159,1061 +3894,1591 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
-              begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
+module force_end(rst, allowed_cycles, valid_in, fend, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
+module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$150  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [6:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [6:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [76:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [29:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [4:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [4:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [29:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [6:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 7'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [6:0] buff_consum;
   reg [6:0] buff_consum = 7'h00;
-  (* init = 7'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [6:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [6:0] buff_free = 7'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [6:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 77'h00000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [76:0] buffer;
   reg [76:0] buffer = 77'h00000000000000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [76:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [29:0] enc_in;
-  (* init = 30'h00000000 *)
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [29:0] enc_in_buff = 30'h00000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [29:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [4:0] enc_in_ctr;
-  (* init = 5'h00 *)
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [4:0] enc_in_ctr_buff = 5'h00;
-  (* init = 5'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [4:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [4:0] enc_in_ctr_reg = 5'h00;
-  (* init = 30'h00000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [4:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [29:0] enc_in_reg = 30'h00000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [29:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [6:0] new_buff_consum;
+  reg [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [6:0] new_buff_free;
+  reg [6:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4244,409 +5509,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 5'h00;
+          \enc_in_ctr_reg$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [76:0];
+          \buffer$next  = \$30 [76:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [76:0];
+                      \buffer$next  = \$37 [76:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 77'h00000000000000000000;
+          \buffer$next  = 77'h00000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    new_buff_free = 7'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [6:0];
-      1'hz:
+          new_buff_free = \$46 [6:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [6:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [6:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [6:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    new_buff_consum = 7'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [6:0];
-      1'hz:
+          new_buff_consum = \$59 [6:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [6:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [6:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [6:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 7'h00;
+          \buff_consum$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 7'h4d;
+          \buff_free$next  = 7'h4d;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 7'h00;
+          \buff_free$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 30'h00000000;
+          \enc_in_buff$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 5'h00;
+          \enc_in_ctr_buff$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 30'h00000000;
+          \enc_in_reg$next  = 30'h00000000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -4657,96 +6191,15 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, fend_out, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$5 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$6 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$15 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$14 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$18 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$19 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$10 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$11 ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
+module integration_1(full_clk, rst, full_rst, fend_out, end_of_frame, pixel_in, \pixel_in$1 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -4771,10 +6224,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [55:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [5:0] enc_out_ctr;
+  wire [5:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
@@ -4801,10 +6256,13 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -4813,8 +6271,10 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
@@ -4842,7 +6302,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$12 ;
+  wire [4:0] \normalize_ssss$13 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
@@ -4850,7 +6310,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$13 ;
+  wire [11:0] \normalize_val_out$12 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -4859,10 +6319,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$11 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
@@ -4893,6 +6355,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -4901,10 +6364,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
@@ -4949,348 +6414,162 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .enc_in(merge_enc_in),
     .\enc_in$1 (\merge_enc_in$18 ),
     .enc_in_ctr(merge_enc_in_ctr),
-    .\enc_in_ctr$2 (\merge_enc_in_ctr$19 ),
-    .enc_out(merge_enc_out),
-    .enc_out_ctr(merge_enc_out_ctr),
-    .end_in(merge_end_in),
-    .end_out(merge_end_out),
-    .rst(rst),
-    .valid_in(merge_valid_in),
-    .valid_out(merge_valid_out)
-  );
-  normalize normalize (
-    .clk(clk),
-    .end_in(normalize_end_in),
-    .end_out(normalize_end_out),
-    .rst(rst),
-    .ssss(normalize_ssss),
-    .\ssss$3 (\normalize_ssss$12 ),
-    .val_in(normalize_val_in),
-    .\val_in$1 (\normalize_val_in$10 ),
-    .val_out(normalize_val_out),
-    .\val_out$4 (\normalize_val_out$13 ),
-    .valid_in(normalize_valid_in),
-    .valid_out(normalize_valid_out),
-    .vals_in_mns(normalize_vals_in_mns),
-    .\vals_in_mns$2 (\normalize_vals_in_mns$11 )
-  );
-  predictor predictor (
-    .clk(clk),
-    .end_in(predictor_end_in),
-    .end_out(predictor_end_out),
-    .new_row(predictor_new_row),
-    .pixel_in(predictor_pixel_in),
-    .\pixel_in$1 (\predictor_pixel_in$2 ),
-    .pixel_out(predictor_pixel_out),
-    .\pixel_out$2 (\predictor_pixel_out$3 ),
-    .predic_out(predictor_predic_out),
-    .\predic_out$3 (\predictor_predic_out$4 ),
-    .rst(rst),
-    .valid_in(predictor_valid_in),
-    .valid_out(predictor_valid_out)
-  );
-  register_file register_file (
-    .allowed_cycles(register_file_allowed_cycles),
-    .full_clk(full_clk),
-    .full_rst(full_rst),
-    .height(register_file_height),
-    .width(register_file_width)
-  );
-  signals signals (
-    .clk(clk),
-    .end_of_frame(end_of_frame),
-    .height(signals_height),
-    .new_input(signals_new_input),
-    .new_row(signals_new_row),
-    .rst(rst),
-    .width(signals_width)
-  );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$5  = 12'h000;
-    \$next\difference_pixel_in$5  = \predictor_pixel_out$3 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$6  = 12'h000;
-    \$next\difference_predic_in$6  = \predictor_predic_out$4 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$10  = 13'h0000;
-    \$next\normalize_val_in$10  = \difference_val_out$7 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$8 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$11  = 13'h0000;
-    \$next\normalize_vals_in_mns$11  = \difference_val_out$9 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$14  = 12'h000;
-    \$next\encode_val_in$14  = \normalize_val_out$13 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$15  = 5'h00;
-    \$next\encode_ssss$15  = \normalize_ssss$12 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in$18  = 28'h0000000;
-    \$next\merge_enc_in$18  = \encode_enc_out$16 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$19  = 5'h00;
-    \$next\merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$2  = 12'h000;
-    \$next\predictor_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$19  = \$next\merge_enc_in_ctr$19 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$18  = \$next\merge_enc_in$18 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$15  = \$next\encode_ssss$15 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$14  = \$next\encode_val_in$14 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$11  = \$next\normalize_vals_in_mns$11 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$10  = \$next\normalize_val_in$10 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$6  = \$next\difference_predic_in$6 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$5  = \$next\difference_pixel_in$5 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$2  = \$next\predictor_pixel_in$2 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+    .\enc_in_ctr$2 (\merge_enc_in_ctr$19 ),
+    .enc_out(merge_enc_out),
+    .enc_out_ctr(merge_enc_out_ctr),
+    .end_in(merge_end_in),
+    .end_out(merge_end_out),
+    .rst(rst),
+    .valid_in(merge_valid_in),
+    .valid_out(merge_valid_out)
+  );
+  normalize normalize (
+    .clk(clk),
+    .end_in(normalize_end_in),
+    .end_out(normalize_end_out),
+    .rst(rst),
+    .ssss(normalize_ssss),
+    .\ssss$4 (\normalize_ssss$13 ),
+    .val_in(normalize_val_in),
+    .\val_in$1 (\normalize_val_in$10 ),
+    .val_out(normalize_val_out),
+    .\val_out$3 (\normalize_val_out$12 ),
+    .valid_in(normalize_valid_in),
+    .valid_out(normalize_valid_out),
+    .vals_in_mns(normalize_vals_in_mns),
+    .\vals_in_mns$2 (\normalize_vals_in_mns$11 )
+  );
+  predictor predictor (
+    .clk(clk),
+    .end_in(predictor_end_in),
+    .end_out(predictor_end_out),
+    .new_row(predictor_new_row),
+    .pixel_in(predictor_pixel_in),
+    .\pixel_in$1 (\predictor_pixel_in$2 ),
+    .pixel_out(predictor_pixel_out),
+    .\pixel_out$2 (\predictor_pixel_out$3 ),
+    .predic_out(predictor_predic_out),
+    .\predic_out$3 (\predictor_predic_out$4 ),
+    .rst(rst),
+    .valid_in(predictor_valid_in),
+    .valid_out(predictor_valid_out)
+  );
+  register_file register_file (
+    .allowed_cycles(register_file_allowed_cycles),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .height(register_file_height),
+    .width(register_file_width)
+  );
+  signals signals (
+    .clk(clk),
+    .end_of_frame(end_of_frame),
+    .height(signals_height),
+    .new_input(signals_new_input),
+    .new_row(signals_new_row),
+    .rst(rst),
+    .width(signals_width)
+  );
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$18  = \encode_enc_out$16 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$15  = \normalize_ssss$13 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$14  = \normalize_val_out$12 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$11  = \difference_val_out$9 ;
+  assign normalize_vals_in_mns = \difference_val_out$8 ;
+  assign \normalize_val_in$10  = \difference_val_out$7 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$6  = \predictor_predic_out$4 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$5  = \predictor_pixel_out$3 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$2  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, full_clk, nready, enc_out, enc_out_ctr, valid_out, out_end, fend_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
+module integration_2(full_clk, rst, full_rst, fend_out, pixel_in, \pixel_in$1 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$151  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:61" *)
   wire \$13 ;
+  (* src = "integration_2.py:61" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:62" *)
   wire \$19 ;
+  (* src = "integration_2.py:62" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$3 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$30 ;
+  (* src = "integration_2.py:70" *)
   wire \$32 ;
+  (* src = "integration_2.py:75" *)
   wire \$34 ;
+  (* src = "integration_2.py:75" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:80" *)
   wire \$44 ;
+  (* src = "integration_2.py:80" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:62" *)
   wire \$5 ;
+  (* src = "converter_fifo.py:65" *)
   wire [55:0] \$50 ;
+  (* src = "converter_fifo.py:66" *)
   wire [5:0] \$52 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [55:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [5:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [29:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [4:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [55:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [5:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -5331,34 +6610,40 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [55:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [5:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [55:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [55:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [5:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -5379,69 +6664,80 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$15  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$17  = \$13  | (* src = "integration_2.py:60" *) \$15 ;
-  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$21  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$23  = \$19  & (* src = "integration_2.py:61" *) \$21 ;
-  assign \$25  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$30  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$32  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$36  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$38  = \$34  | (* src = "integration_2.py:74" *) \$36 ;
-  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$40  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$46  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$48  = \$44  & (* src = "integration_2.py:79" *) \$46 ;
+  wire valid_out;
+  assign \$9  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$15  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$17  = \$13  | (* src = "integration_2.py:61" *) \$15 ;
+  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$21  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$23  = \$19  & (* src = "integration_2.py:62" *) \$21 ;
+  assign \$25  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$30  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$32  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$36  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$38  = \$34  | (* src = "integration_2.py:75" *) \$36 ;
+  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$40  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$46  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$48  = \$44  & (* src = "integration_2.py:80" *) \$46 ;
   assign \$50  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$52  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$7  = \$3  & (* src = "integration_2.py:61" *) \$5 ;
+  assign \$5  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$7  = \$3  & (* src = "integration_2.py:62" *) \$5 ;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -5500,248 +6796,150 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$11 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$17 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_end$next  = \$17 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 6'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 56'h00000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 6'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 30'h00000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$27 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 5'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \$50 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \$52 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$29 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_reset_counter$next  = \$30 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$32 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$42 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$2  = 12'h000;
-    \$next\integration_1_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$48 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 56'h00000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
   assign \$29  = \$30 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$2  = \$next\integration_1_pixel_in$2 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$52 ;
+  assign enc_out = \$50 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$48 ;
+  assign \integration_1_pixel_in$2  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$42 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_clk, data_out, valid_out, end_out, nready, fend_out, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [29:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [4:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
+module integration_3(full_clk, rst, full_rst, pixel_in, \pixel_in$1 , valid_in, busy_in, data_out, valid_out, end_out, fend_out, nready, clk);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "integration_3.py:25" *)
+  wire clk;
+  (* src = "integration_3.py:26" *)
   output [15:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [15:0] data_out;
+  (* src = "integration_3.py:31" *)
   output end_out;
-  (* src = "integration_1.py:35" *)
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_2.py:24" *)
-  wire [55:0] integration_2_enc_out;
+  wire full_rst;
   (* src = "integration_2.py:25" *)
-  wire [5:0] integration_2_enc_out_ctr;
+  wire [55:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [5:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -5789,915 +6987,935 @@ module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_c
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$2  = 12'h000;
-    \$next\integration_2_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 30'h00000000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[29:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 5'h00;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[4:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign \integration_2_pixel_in$2  = \$next\integration_2_pixel_in$2 ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[4:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[29:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign \integration_2_pixel_in$2  = \pixel_in$1 ;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$152  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [55:0] enc_in;
+  wire [55:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 9'h1f6;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 63'h0000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = fifo_dout[55:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[61:56];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[62];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[62];
+  assign enc_out_ctr = fifo_r_data[61:56];
+  assign enc_out = fifo_r_data[55:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_out, end_out, data_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.markers" *)
+module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$153  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
   output o_busy;
+  reg o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      counter <= \$next\counter ;
-  always @(posedge clk)
-      end_cond <= \$next\end_cond ;
-  always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
+  always @(posedge clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge clk)
+    counter <= \counter$next ;
+  always @(posedge clk)
+    end_cond <= \end_cond$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge" *)
+module merge(rst, enc_in, \enc_in$1 , enc_in_ctr, \enc_in_ctr$2 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:112" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [5:0] \$next\enc_out_ctr ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$4 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$3 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
+  wire [4:0] \enc_in_ctr$2 ;
   (* src = "merge.py:112" *)
   output [55:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$6 ;
+  wire [55:0] enc_out;
   (* src = "merge.py:113" *)
   output [5:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$5 ;
+  wire [5:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$4 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$8 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$3 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$7 ;
-  \anonymous$4  \$9  (
+  wire valid_out;
+  \U$$0$3  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$6 ),
-    .enc_out_ctr(\enc_out_ctr$5 ),
-    .end_in(\end_in$4 ),
-    .end_out(\end_out$8 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$3 ),
-    .valid_out(\valid_out$7 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\valid_in$3  = 1'h0;
-    \$next\valid_in$3  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$4  = 1'h0;
-    \$next\end_in$4  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \enc_out$6 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$5 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$7 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$8 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$4  = \$next\end_in$4 ;
-  assign \valid_in$3  = \$next\valid_in$3 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_out_ctr = \U$$0_enc_out_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$2 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , rst, clk, ssss, val_out, \ssss$3 , \val_out$4 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
+module normalize(rst, val_in, \val_in$1 , vals_in_mns, \vals_in_mns$2 , valid_in, end_in, val_out, \val_out$3 , ssss, \ssss$4 , valid_out, end_out, clk);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$6 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$3 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$12 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$5 ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$13 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$4 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$11 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$9 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$3 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$8 ;
+  output [4:0] \ssss$4 ;
+  wire [4:0] \ssss$4 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$12 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$13 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$4 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$7 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$11 ;
+  output [11:0] \val_out$3 ;
+  wire [11:0] \val_out$3 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$2 ;
-  anonymous \$10  (
+  wire [12:0] \vals_in_mns$2 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$9 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$8 ),
-    .val_in(\val_in$5 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$7 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$17  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$14 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$12 ),
-    .val_in_mns(\val_in_mns$13 ),
-    .val_out(\val_out$15 ),
-    .valid(\valid$11 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  always @* begin
-    \$next\val_in$5  = 13'h0000;
-    \$next\val_in$5  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out$4  = 12'h000;
-    \$next\val_out$4  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$9 ;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$8 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$7 ;
-  end
-  always @* begin
-    \$next\val_in$12  = 13'h0000;
-    \$next\val_in$12  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$11  = 1'h0;
-    \$next\valid$11  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$13  = 13'h0000;
-    \$next\val_in_mns$13  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$4  = \$next\val_out$4 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \val_in_mns$13  = \$next\val_in_mns$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \valid$11  = \$next\valid$11 ;
-  assign \val_in$12  = \$next\val_in$12 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign valid = \$next\valid ;
-  assign \val_in$5  = \$next\val_in$5 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$3  = \U$$1_val_out ;
+  assign \ssss$4  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$2 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
+module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$154  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [3:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [5:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [6:0] buff_consum;
+  wire [6:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [76:0] buffer;
+  wire [76:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 16'h0000 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [15:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [3:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [5:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -6736,148 +7954,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\shift_right  = 6'h00;
-    \$next\shift_right  = \$1 [5:0];
-  end
-  always @* begin
-    \$next\shift_left  = 4'h0;
-    \$next\shift_left  = \$4 [3:0];
-  end
-  always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [15:0];
+                      \data_out$next  = \$40 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [15:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [15:0];
+                      \data_out$next  = \$52 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -6886,143 +8157,143 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [3:0];
+  assign shift_right = \$2 [5:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
+module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$155  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$10 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$12 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$14 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$21 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$22 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$27 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$28 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$4 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$6 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$8 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$24 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$25 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$26 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$30 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$31 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$32 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out$3 ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$24  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$24$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$25  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$25$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$26  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$26$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg buff_ctr = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$30  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$30$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$31  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$31$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$32  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$32$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg lbuff_ctr = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] \pixel_in$1 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] \pixel_out$2 ;
   reg [11:0] \pixel_out$2  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$2$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] \predic_out$3 ;
   reg [11:0] \predic_out$3  = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$10  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$12  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$14  = \$10  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$12 ;
@@ -7034,452 +8305,577 @@ module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \
   assign \$6  = new_row == (* src = "predictor_p1_c4_pix1_2.py:115" *) 1'h1;
   assign \$8  = \$4  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$6 ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \predic_out$3  <= \$next\predic_out$3 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$32  <= \$next\lbuff$32 ;
+    \lbuff$32  <= \lbuff$32$next ;
   always @(posedge clk)
-      \lbuff$31  <= \$next\lbuff$31 ;
+    \lbuff$31  <= \lbuff$31$next ;
   always @(posedge clk)
-      \lbuff$30  <= \$next\lbuff$30 ;
+    \lbuff$30  <= \lbuff$30$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$26  <= \$next\buff$26 ;
+    \buff$26  <= \buff$26$next ;
   always @(posedge clk)
-      \buff$25  <= \$next\buff$25 ;
+    \buff$25  <= \buff$25$next ;
   always @(posedge clk)
-      \buff$24  <= \$next\buff$24 ;
+    \buff$24  <= \buff$24$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      \pixel_out$2  <= \$next\pixel_out$2 ;
+    \pixel_out$2  <= \pixel_out$2$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$14 , \$8  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$16 ;
-  end
-  always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$27 [0];
+                \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 1'h0;
+          \lbuff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$30  = \lbuff$30 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$30$next  = \lbuff$30 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff$30  = \pixel_in$1 ;
+                      \lbuff$30$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$30  = 12'h800;
+          \lbuff$30$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$31  = \lbuff$31 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$31$next  = \lbuff$31 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$31  = pixel_in;
+                      \lbuff$31$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$31  = 12'h800;
+          \lbuff$31$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$32  = \lbuff$32 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \lbuff$32$next  = \lbuff$32 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$32  = \pixel_in$1 ;
+                      \lbuff$32$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$32  = 12'h800;
+          \lbuff$32$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out  = \lbuff$31 ;
+                      \predic_out$next  = \lbuff$31 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out  = \buff$25 ;
+                      \predic_out$next  = \buff$25 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$3  = \predic_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out$3  = \lbuff$30 ;
+                      \predic_out$3$next  = \lbuff$30 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out$3  = \lbuff$32 ;
+                      \predic_out$3$next  = \lbuff$32 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out$3  = \buff$24 ;
+                      \predic_out$3$next  = \buff$24 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out$3  = \buff$26 ;
+                      \predic_out$3$next  = \buff$26 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$3  = 12'h000;
+          \predic_out$3$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$18 [31:0];
+          \debug_counter$next  = \$19 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$2  = \pixel_out$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \pixel_out$2$next  = \pixel_out$2 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out$2  = \pixel_in$1 ;
+          \pixel_out$2$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$2  = 12'h000;
+          \pixel_out$2$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$21 [0];
+          \buff_ctr$next  = \$22 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 1'h0;
+          \buff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$24  = \buff$24 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$24$next  = \buff$24 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff$24  = \pixel_in$1 ;
+                \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$24  = 12'h800;
+          \buff$24$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$25  = \buff$25 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$25$next  = \buff$25 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$25  = pixel_in;
+                \buff$25$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$25  = 12'h800;
+          \buff$25$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$26  = \buff$26 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buff$26$next  = \buff$26 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$26  = \pixel_in$1 ;
+                \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$26  = 12'h800;
+          \buff$26$next  = 12'h800;
     endcase
   end
   assign \$18  = \$19 ;
   assign \$21  = \$22 ;
   assign \$27  = \$28 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$16 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_clk, width, height, allowed_cycles, full_rst);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.register_file" *)
+module register_file(full_rst, height, width, allowed_cycles, full_clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$156  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
+module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$157  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -7494,124 +8890,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 2'h2;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7620,52 +9085,46 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, m_tvalid, m_tlast, m_tdata, s_tready, m_tready);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_tlast, m_tready, m_tdata, s_tvalid, s_tlast, s_tready, s_tdata, full_clk, full_rst, m_tvalid);
+  (* src = "beta_integration_axistream.py:45" *)
   wire \$1 ;
+  (* src = "beta_integration_axistream.py:53" *)
   wire \$3 ;
-  (* src = "beta_integration_axistream.py:15" *)
-  reg [15:0] \$next\m_tdata ;
-  (* src = "beta_integration_axistream.py:13" *)
-  reg \$next\m_tlast ;
-  (* src = "beta_integration_axistream.py:12" *)
-  reg \$next\m_tvalid ;
-  (* src = "beta_integration_axistream.py:38" *)
-  reg \$next\s_end ;
-  (* src = "beta_integration_axistream.py:20" *)
-  reg \$next\s_tready ;
-  (* src = "beta_integration.py:43" *)
-  reg \$next\top_module_busy_in ;
-  (* src = "beta_integration.py:32" *)
-  reg [11:0] \$next\top_module_pixel_in1 ;
-  (* src = "beta_integration.py:33" *)
-  reg [11:0] \$next\top_module_pixel_in2 ;
-  (* src = "beta_integration.py:39" *)
-  reg \$next\top_module_valid_in ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "beta_integration_axistream.py:15" *)
+  wire full_rst;
+  (* src = "beta_integration_axistream.py:16" *)
   output [15:0] m_tdata;
-  (* src = "beta_integration_axistream.py:13" *)
-  output m_tlast;
+  wire [15:0] m_tdata;
   (* src = "beta_integration_axistream.py:14" *)
+  output m_tlast;
+  wire m_tlast;
+  (* src = "beta_integration_axistream.py:15" *)
   input m_tready;
-  (* src = "beta_integration_axistream.py:12" *)
+  wire m_tready;
+  (* src = "beta_integration_axistream.py:13" *)
   output m_tvalid;
-  (* src = "beta_integration_axistream.py:38" *)
+  wire m_tvalid;
+  (* src = "beta_integration_axistream.py:39" *)
   wire s_end;
-  (* src = "beta_integration_axistream.py:21" *)
+  (* src = "beta_integration_axistream.py:22" *)
   input [31:0] s_tdata;
-  (* src = "beta_integration_axistream.py:19" *)
-  input s_tlast;
+  wire [31:0] s_tdata;
   (* src = "beta_integration_axistream.py:20" *)
+  input s_tlast;
+  wire s_tlast;
+  (* src = "beta_integration_axistream.py:21" *)
   output s_tready;
-  (* src = "beta_integration_axistream.py:18" *)
+  wire s_tready;
+  (* src = "beta_integration_axistream.py:19" *)
   input s_tvalid;
+  wire s_tvalid;
   (* src = "beta_integration.py:43" *)
   wire top_module_busy_in;
   (* src = "beta_integration.py:36" *)
@@ -7682,129 +9141,47 @@ module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, m_tvalid, m_tlast, m_
   wire top_module_valid_in;
   (* src = "beta_integration.py:40" *)
   wire top_module_valid_out;
-  assign \$1  = m_tready == (* src = "beta_integration_axistream.py:44" *) 1'h0;
-  assign \$3  = top_module_nready == (* src = "beta_integration_axistream.py:52" *) 1'h0;
+  assign \$1  = m_tready == (* src = "beta_integration_axistream.py:45" *) 1'h0;
+  assign \$3  = top_module_nready == (* src = "beta_integration_axistream.py:53" *) 1'h0;
   top_module top_module (
     .busy_in(top_module_busy_in),
     .data_out(top_module_data_out),
     .end_out(top_module_end_out),
-    .full_clk(full_clk),
-    .full_rst(full_rst),
-    .nready(top_module_nready),
-    .pixel_in1(top_module_pixel_in1),
-    .pixel_in2(top_module_pixel_in2),
-    .valid_in(top_module_valid_in),
-    .valid_out(top_module_valid_out)
-  );
-  always @* begin
-    \$next\m_tdata  = 16'h0000;
-    \$next\m_tdata  = top_module_data_out;
-  end
-  always @* begin
-    \$next\m_tlast  = 1'h0;
-    \$next\m_tlast  = top_module_end_out;
-  end
-  always @* begin
-    \$next\top_module_busy_in  = 1'h0;
-    \$next\top_module_busy_in  = \$1 ;
-  end
-  always @* begin
-    \$next\m_tvalid  = 1'h0;
-    \$next\m_tvalid  = top_module_valid_out;
-  end
-  always @* begin
-    \$next\top_module_pixel_in1  = 12'h000;
-    \$next\top_module_pixel_in1  = s_tdata[31:20];
-  end
-  always @* begin
-    \$next\top_module_pixel_in2  = 12'h000;
-    \$next\top_module_pixel_in2  = s_tdata[19:8];
-  end
-  always @* begin
-    \$next\s_tready  = 1'h0;
-    \$next\s_tready  = \$3 ;
-  end
-  always @* begin
-    \$next\s_end  = 1'h0;
-    \$next\s_end  = s_tlast;
-  end
-  always @* begin
-    \$next\top_module_valid_in  = 1'h0;
-    \$next\top_module_valid_in  = s_tvalid;
-  end
-  assign top_module_valid_in = \$next\top_module_valid_in ;
-  assign s_end = \$next\s_end ;
-  assign s_tready = \$next\s_tready ;
-  assign top_module_pixel_in2 = \$next\top_module_pixel_in2 ;
-  assign top_module_pixel_in1 = \$next\top_module_pixel_in1 ;
-  assign m_tvalid = \$next\m_tvalid ;
-  assign top_module_busy_in = \$next\top_module_busy_in ;
-  assign m_tlast = \$next\m_tlast ;
-  assign m_tdata = \$next\m_tdata ;
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .nready(top_module_nready),
+    .pixel_in1(top_module_pixel_in1),
+    .pixel_in2(top_module_pixel_in2),
+    .valid_in(top_module_valid_in),
+    .valid_out(top_module_valid_out)
+  );
+  assign top_module_valid_in = s_tvalid;
+  assign s_end = s_tlast;
+  assign s_tready = \$3 ;
+  assign top_module_pixel_in2 = s_tdata[19:8];
+  assign top_module_pixel_in1 = s_tdata[31:20];
+  assign m_tvalid = top_module_valid_out;
+  assign top_module_busy_in = \$1 ;
+  assign m_tlast = top_module_end_out;
+  assign m_tdata = top_module_data_out;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module" *)
 (* generator = "nMigen" *)
-module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, valid_out, end_out, nready, full_clk);
+(* \nmigen.hierarchy  = "top.top_module" *)
+module top_module(end_out, busy_in, valid_out, pixel_in1, pixel_in2, nready, valid_in, full_clk, full_rst, data_out);
+  (* src = "beta_integration.py:131" *)
+  wire \$10 ;
+  (* src = "beta_integration.py:131" *)
+  wire \$12 ;
+  (* src = "beta_integration.py:69" *)
   wire \$2 ;
+  (* src = "beta_integration.py:69" *)
   wire \$4 ;
+  (* src = "beta_integration.py:69" *)
   wire \$6 ;
+  (* src = "beta_integration.py:76" *)
   wire \$8 ;
   (* src = "auto_reset.py:34" *)
-  reg \$next\auto_reset_end_in ;
-  (* src = "auto_reset.py:37" *)
-  reg \$next\auto_reset_hs1_in ;
-  (* src = "auto_reset.py:40" *)
-  reg \$next\auto_reset_hs2_in ;
-  (* src = "beta_integration.py:36" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "beta_integration.py:41" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:149" *)
-  reg [31:0] \$next\fix_0xff2_data_in ;
-  (* src = "fix_0xff2.py:150" *)
-  reg [2:0] \$next\fix_0xff2_data_in_ctr ;
-  (* src = "fix_0xff2.py:159" *)
-  reg \$next\fix_0xff2_end_in ;
-  (* src = "fix_0xff2.py:163" *)
-  reg \$next\fix_0xff2_i_busy ;
-  (* src = "fix_0xff2.py:156" *)
-  reg \$next\fix_0xff2_valid_in ;
-  (* src = "fix_0xff.py:69" *)
-  reg [15:0] \$next\fix_0xff_data_in ;
-  (* src = "fix_0xff.py:81" *)
-  reg \$next\fix_0xff_end_in ;
-  (* src = "fix_0xff.py:79" *)
-  reg \$next\fix_0xff_i_busy ;
-  (* src = "fix_0xff.py:76" *)
-  reg \$next\fix_0xff_valid_in ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\integration_3_busy_in ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\integration_3_clk ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in$1 ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\integration_3_rst ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\integration_3_valid_in ;
-  (* src = "markers.py:35" *)
-  reg [15:0] \$next\markers_data_in ;
-  (* src = "markers.py:44" *)
-  reg \$next\markers_end_in ;
-  (* src = "markers.py:45" *)
-  reg \$next\markers_force_end_in ;
-  (* src = "markers.py:49" *)
-  reg \$next\markers_i_busy ;
-  (* src = "markers.py:41" *)
-  reg \$next\markers_valid_in ;
-  (* src = "beta_integration.py:42" *)
-  reg \$next\nready ;
-  (* src = "beta_integration.py:40" *)
-  reg \$next\valid_out ;
-  (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
   (* src = "auto_reset.py:37" *)
   wire auto_reset_hs1_in;
@@ -7814,10 +9191,13 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire auto_reset_reset_out;
   (* src = "beta_integration.py:43" *)
   input busy_in;
+  wire busy_in;
   (* src = "beta_integration.py:36" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "beta_integration.py:41" *)
   output end_out;
+  wire end_out;
   (* src = "fix_0xff2.py:149" *)
   wire [31:0] fix_0xff2_data_in;
   (* src = "fix_0xff2.py:150" *)
@@ -7856,29 +9236,31 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire fix_0xff_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3.py:32" *)
+  wire full_rst;
+  (* src = "integration_3.py:33" *)
   wire integration_3_busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   wire integration_3_clk;
-  (* src = "integration_3.py:25" *)
+  (* src = "integration_3.py:26" *)
   wire [15:0] integration_3_data_out;
-  (* src = "integration_3.py:30" *)
+  (* src = "integration_3.py:31" *)
   wire integration_3_end_out;
-  (* src = "integration_1.py:35" *)
+  (* src = "integration_1.py:36" *)
   wire integration_3_fend_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   wire integration_3_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] integration_3_pixel_in;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \integration_3_pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   wire integration_3_rst;
-  (* src = "integration_3.py:28" *)
-  wire integration_3_valid_in;
   (* src = "integration_3.py:29" *)
+  wire integration_3_valid_in;
+  (* src = "integration_3.py:30" *)
   wire integration_3_valid_out;
   (* src = "markers.py:35" *)
   wire [15:0] markers_data_in;
@@ -7900,14 +9282,21 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire markers_valid_out;
   (* src = "beta_integration.py:42" *)
   output nready;
+  wire nready;
   (* src = "beta_integration.py:32" *)
   input [11:0] pixel_in1;
+  wire [11:0] pixel_in1;
   (* src = "beta_integration.py:33" *)
   input [11:0] pixel_in2;
+  wire [11:0] pixel_in2;
   (* src = "beta_integration.py:39" *)
   input valid_in;
+  wire valid_in;
   (* src = "beta_integration.py:40" *)
   output valid_out;
+  wire valid_out;
+  assign \$10  = auto_reset_reset_out == (* src = "beta_integration.py:131" *) 1'h0;
+  assign \$12  = markers_valid_out & (* src = "beta_integration.py:131" *) \$10 ;
   assign \$2  = auto_reset_reset_out == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
@@ -7974,281 +9363,138 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
   );
-  always @* begin
-    \$next\integration_3_clk  = 1'h0;
-    \$next\integration_3_clk  = full_clk;
-  end
-  always @* begin
-    \$next\integration_3_rst  = 1'h0;
-    \$next\integration_3_rst  = \$6 ;
-  end
-  always @* begin
-    \$next\fix_0xff_valid_in  = 1'h0;
-    \$next\fix_0xff_valid_in  = integration_3_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff_end_in  = 1'h0;
-    \$next\fix_0xff_end_in  = integration_3_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff_i_busy  = 1'h0;
-    \$next\fix_0xff_i_busy  = fix_0xff2_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in  = 32'd0;
-    \$next\fix_0xff2_data_in  = fix_0xff_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_valid_in  = 1'h0;
-    \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_end_in  = 1'h0;
-    \$next\fix_0xff2_end_in  = fix_0xff_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = markers_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in_ctr  = 3'h0;
-    \$next\fix_0xff2_data_in_ctr  = fix_0xff_data_out_ctr;
-  end
-  always @* begin
-    \$next\markers_data_in  = 16'h0000;
-    \$next\markers_data_in  = fix_0xff2_data_out;
-  end
-  always @* begin
-    \$next\markers_valid_in  = 1'h0;
-    \$next\markers_valid_in  = fix_0xff2_valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_end_in  = 1'h0;
-    \$next\auto_reset_end_in  = end_out;
-  end
-  always @* begin
-    \$next\markers_force_end_in  = 1'h0;
-    \$next\markers_force_end_in  = integration_3_fend_out;
-  end
-  always @* begin
-    \$next\markers_end_in  = 1'h0;
-    \$next\markers_end_in  = fix_0xff2_end_out;
-  end
-  always @* begin
-    \$next\markers_i_busy  = 1'h0;
-    \$next\markers_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = markers_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = markers_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_3_nready;
-  end
-  always @* begin
-    \$next\auto_reset_hs1_in  = 1'h0;
-    \$next\auto_reset_hs1_in  = valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_hs2_in  = 1'h0;
-    \$next\auto_reset_hs2_in  = \$8 ;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in  = 12'h000;
-    \$next\integration_3_pixel_in  = pixel_in1;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in$1  = 12'h000;
-    \$next\integration_3_pixel_in$1  = pixel_in2;
-  end
-  always @* begin
-    \$next\integration_3_valid_in  = 1'h0;
-    \$next\integration_3_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_3_busy_in  = 1'h0;
-    \$next\integration_3_busy_in  = fix_0xff_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff_data_in  = 16'h0000;
-    \$next\fix_0xff_data_in  = integration_3_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign markers_i_busy = \$next\markers_i_busy ;
-  assign markers_end_in = \$next\markers_end_in ;
-  assign markers_force_end_in = \$next\markers_force_end_in ;
-  assign markers_valid_in = \$next\markers_valid_in ;
-  assign markers_data_in = \$next\markers_data_in ;
-  assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
-  assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
-  assign fix_0xff2_end_in = \$next\fix_0xff2_end_in ;
-  assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
-  assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
-  assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
-  assign fix_0xff_end_in = \$next\fix_0xff_end_in ;
-  assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
-  assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
-  assign integration_3_busy_in = \$next\integration_3_busy_in ;
-  assign integration_3_valid_in = \$next\integration_3_valid_in ;
-  assign \integration_3_pixel_in$1  = \$next\integration_3_pixel_in$1 ;
-  assign integration_3_pixel_in = \$next\integration_3_pixel_in ;
-  assign auto_reset_hs2_in = \$next\auto_reset_hs2_in ;
-  assign auto_reset_hs1_in = \$next\auto_reset_hs1_in ;
-  assign auto_reset_end_in = \$next\auto_reset_end_in ;
-  assign integration_3_rst = \$next\integration_3_rst ;
-  assign integration_3_clk = \$next\integration_3_clk ;
+  assign nready = integration_3_nready;
+  assign end_out = markers_end_out;
+  assign valid_out = \$12 ;
+  assign data_out = markers_data_out;
+  assign markers_i_busy = busy_in;
+  assign markers_end_in = fix_0xff2_end_out;
+  assign markers_force_end_in = integration_3_fend_out;
+  assign markers_valid_in = fix_0xff2_valid_out;
+  assign markers_data_in = fix_0xff2_data_out;
+  assign fix_0xff2_data_in_ctr = fix_0xff_data_out_ctr;
+  assign fix_0xff2_i_busy = markers_o_busy;
+  assign fix_0xff2_end_in = fix_0xff_end_out;
+  assign fix_0xff2_valid_in = fix_0xff_valid_out;
+  assign fix_0xff2_data_in = fix_0xff_data_out;
+  assign fix_0xff_i_busy = fix_0xff2_o_busy;
+  assign fix_0xff_end_in = integration_3_end_out;
+  assign fix_0xff_valid_in = integration_3_valid_out;
+  assign fix_0xff_data_in = integration_3_data_out;
+  assign integration_3_busy_in = fix_0xff_o_busy;
+  assign integration_3_valid_in = valid_in;
+  assign \integration_3_pixel_in$1  = pixel_in2;
+  assign integration_3_pixel_in = pixel_in1;
+  assign auto_reset_hs2_in = \$8 ;
+  assign auto_reset_hs1_in = valid_out;
+  assign auto_reset_end_in = end_out;
+  assign integration_3_rst = \$6 ;
+  assign integration_3_clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$158  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [62:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [62:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [62:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [62:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [62:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [62:0] storage [510:0];
   initial begin
     storage[0] = 63'h0000000000000000;
@@ -8763,238 +10009,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[509] = 63'h0000000000000000;
     storage[510] = 63'h0000000000000000;
   end
-  reg [62:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [62:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 63'h0000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$5 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$159  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [35:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [35:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [35:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [35:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [35:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [35:0] storage [510:0];
   initial begin
     storage[0] = 36'h000000000;
@@ -9509,145 +10729,133 @@ module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level
     storage[509] = 36'h000000000;
     storage[510] = 36'h000000000;
   end
-  reg [35:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [35:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 36'h000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [29:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [4:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [6:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [76:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
+module vbits_to_cbits(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, clk);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [6:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -9670,6 +10878,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -9690,10 +10899,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -9720,75 +10932,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 30'h00000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 5'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 77'h00000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 7'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 7'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/beta_integration_fifo_axistream.v b/verilog_src/beta_integration_fifo_axistream.v
index ca34087..cd22093 100644
--- a/verilog_src/beta_integration_fifo_axistream.v
+++ b/verilog_src/beta_integration_fifo_axistream.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$142  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$143  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge.U$$0" *)
+module \U$$0$3 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$144  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.U$$1" *)
+module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$145  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,197 +947,292 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -660,599 +1249,423 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.U$$1" *)
+module \U$$1$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$3 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$4 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 56'h00000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$3  = \$6 ;
-endmodule
-
 (* \nmigen.hierarchy  = "top.top_module.auto_reset" *)
-(* generator = "nMigen" *)
-module auto_reset(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.b64_b32" *)
 (* generator = "nMigen" *)
-module b64_b32(data_in, i_busy, full_rst, full_clk, o_busy, data_out, valid_out, valid_in);
+(* \nmigen.hierarchy  = "top.b64_b32" *)
+module b64_b32(o_busy, valid_in, data_out, i_busy, valid_out, full_clk, full_rst, data_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "b64_b32_2.py:100" *)
   wire \$1 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$101 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$103 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$105 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$107 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$109 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$11 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$111 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$113 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$115 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$117 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$119 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$121 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$123 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$125 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$127 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$129 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$13 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$131 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$15 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$17 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$19 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$21 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$23 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$25 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$27 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$29 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$3 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$31 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$33 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$35 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$37 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$39 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$41 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$43 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$45 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$47 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$49 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$5 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$51 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$53 ;
+  (* src = "b64_b32_2.py:112" *)
   wire \$55 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$57 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$59 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$61 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$63 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$65 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$67 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$69 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$7 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$71 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$73 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$75 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$77 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$79 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$81 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$83 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$85 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$87 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$89 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$9 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$91 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$93 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$95 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$97 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$99 ;
-  (* src = "b64_b32_2.py:42" *)
-  reg [23:0] \$next\data_out ;
-  (* src = "b64_b32_2.py:65" *)
-  reg \$next\half_latched ;
-  (* src = "b64_b32_2.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "b64_b32_2.py:62" *)
-  reg [63:0] \$next\reg ;
-  (* src = "b64_b32_2.py:64" *)
-  reg \$next\reg_tobe_invalid ;
-  (* src = "b64_b32_2.py:63" *)
-  reg \$next\reg_valid ;
-  (* src = "b64_b32_2.py:46" *)
-  reg \$next\valid_out ;
-  (* src = "b64_b32_2.py:68" *)
-  reg \$next\wire_obusy ;
   (* src = "b64_b32_2.py:39" *)
   input [63:0] data_in;
-  (* init = 24'h000000 *)
+  wire [63:0] data_in;
   (* src = "b64_b32_2.py:42" *)
   output [23:0] data_out;
   reg [23:0] data_out = 24'h000000;
+  (* src = "b64_b32_2.py:42" *)
+  reg [23:0] \data_out$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* init = 1'h0 *)
+  wire full_rst;
   (* src = "b64_b32_2.py:65" *)
   reg half_latched = 1'h0;
+  (* src = "b64_b32_2.py:65" *)
+  reg \half_latched$next ;
   (* src = "b64_b32_2.py:49" *)
   input i_busy;
-  (* init = 1'h1 *)
+  wire i_busy;
   (* src = "b64_b32_2.py:48" *)
   output o_busy;
   reg o_busy = 1'h1;
-  (* init = 64'h0000000000000000 *)
+  (* src = "b64_b32_2.py:48" *)
+  reg \o_busy$next ;
   (* src = "b64_b32_2.py:62" *)
   reg [63:0] \reg  = 64'h0000000000000000;
+  (* src = "b64_b32_2.py:62" *)
+  reg [63:0] \reg$next ;
   (* src = "b64_b32_2.py:64" *)
-  wire reg_tobe_invalid;
-  (* init = 1'h0 *)
+  reg reg_tobe_invalid;
   (* src = "b64_b32_2.py:63" *)
   reg reg_valid = 1'h0;
+  (* src = "b64_b32_2.py:63" *)
+  reg \reg_valid$next ;
   (* src = "b64_b32_2.py:45" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "b64_b32_2.py:46" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "b64_b32_2.py:46" *)
+  reg \valid_out$next ;
   (* src = "b64_b32_2.py:68" *)
-  wire wire_obusy;
+  reg wire_obusy;
   assign \$9  = \$5  & (* src = "b64_b32_2.py:100" *) \$7 ;
   assign \$99  = half_latched == (* src = "b64_b32_2.py:101" *) 1'h1;
   assign \$101  = reg_valid == (* src = "b64_b32_2.py:125" *) 1'h0;
@@ -1320,256 +1733,330 @@ module b64_b32(data_in, i_busy, full_rst, full_clk, o_busy, data_out, valid_out,
   assign \$95  = valid_out == (* src = "b64_b32_2.py:100" *) 1'h1;
   assign \$97  = \$93  & (* src = "b64_b32_2.py:100" *) \$95 ;
   always @(posedge full_clk)
-      half_latched <= \$next\half_latched ;
+    half_latched <= \half_latched$next ;
   always @(posedge full_clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge full_clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge full_clk)
-      reg_valid <= \$next\reg_valid ;
+    reg_valid <= \reg_valid$next ;
   always @(posedge full_clk)
-      \reg  <= \$next\reg ;
+    \reg  <= \reg$next ;
   always @(posedge full_clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @* begin
-    \$next\o_busy  = o_busy;
-    \$next\o_busy  = wire_obusy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \o_busy$next  = wire_obusy;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\o_busy  = 1'h1;
+          \o_busy$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\reg_tobe_invalid  = 1'h0;
-    \$next\reg_tobe_invalid  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    reg_tobe_invalid = 1'h0;
+    (* src = "b64_b32_2.py:100" *)
     casez (\$9 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$11 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\reg_tobe_invalid  = 1'h1;
+                reg_tobe_invalid = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\wire_obusy  = 1'h0;
-    \$next\wire_obusy  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    wire_obusy = 1'h1;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$21 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\wire_obusy  = 1'h0;
+          wire_obusy = 1'h0;
     endcase
   end
   always @* begin
-    \$next\reg  = \reg ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \reg$next  = \reg ;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$31 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\reg  = data_in;
+          \reg$next  = data_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\reg  = 64'h0000000000000000;
+          \reg$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\reg_valid  = reg_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \reg_valid$next  = reg_valid;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$41 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\reg_valid  = 1'h1;
+          \reg_valid$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$51 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$53 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
+                (* src = "b64_b32_2.py:112" *)
                 casez (\$55 )
+                  /* src = "b64_b32_2.py:112" */
                   1'h1:
-                      \$next\reg_valid  = 1'h0;
+                      \reg_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\reg_valid  = 1'h0;
+          \reg_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \data_out$next  = data_out;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$65 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\data_out  = \reg [63:40];
+          \data_out$next  = \reg [63:40];
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$75 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$77 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\data_out  = \reg [39:16];
-            1'hz:
-                \$next\data_out  = \reg [63:40];
+                \data_out$next  = \reg [39:16];
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \data_out$next  = \reg [63:40];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\data_out  = 24'h000000;
+          \data_out$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$87 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\valid_out  = 1'h1;
+          \valid_out$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$97 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$99 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\valid_out  = 1'h1;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
     endcase
+    (* src = "b64_b32_2.py:125" *)
     casez (\$109 )
+      /* src = "b64_b32_2.py:125" */
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\half_latched  = half_latched;
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \half_latched$next  = half_latched;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$119 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\half_latched  = 1'h1;
+          \half_latched$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$129 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$131 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\half_latched  = 1'h0;
-            1'hz:
-                \$next\half_latched  = 1'h1;
+                \half_latched$next  = 1'h0;
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \half_latched$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\half_latched  = 1'h0;
+          \half_latched$next  = 1'h0;
     endcase
   end
-  assign wire_obusy = \$next\wire_obusy ;
-  assign reg_tobe_invalid = \$next\reg_tobe_invalid ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
+module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [29:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [29:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [4:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [5:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [29:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [55:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 30'h00000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [29:0] enc_in;
   reg [29:0] enc_in = 30'h00000000;
-  (* init = 5'h00 *)
+  (* src = "converter.py:66" *)
+  reg [29:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [4:0] enc_in_ctr;
   reg [4:0] enc_in_ctr = 5'h00;
+  (* src = "converter.py:67" *)
+  reg [4:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "converter.py:61" *)
   input [5:0] enc_out_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [5:0] enc_out_ctr_reg = 6'h00;
-  (* init = 30'h00000000 *)
+  (* src = "converter.py:95" *)
+  reg [5:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [29:0] enc_out_latch = 30'h00000000;
-  (* init = 56'h00000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [29:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [55:0] enc_out_reg = 56'h00000000000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [55:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -1590,7 +2077,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[55:30];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[55:30];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 5'h1e;
@@ -1600,715 +2087,894 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[29:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 30'h00000000;
+          \enc_out_latch$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 56'h00000000000000;
+          \enc_out_reg$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 6'h00;
+          \enc_out_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[29:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 30'h00000000;
+          \enc_in$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[4:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[4:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 5'h1e;
+                      \enc_in_ctr$next  = 5'h1e;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [4:0];
+                            \enc_in_ctr$next  = \$52 [4:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 5'h1e;
+          \enc_in_ctr$next  = 5'h1e;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 5'h00;
+          \enc_in_ctr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
+module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$150  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [29:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [29:0] enc_out;
+  wire [29:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 9'h1fb;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$5  fifo (
+    close_full <= \close_full$next ;
+  \fifo$4  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 36'h000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 30'h00000000;
-    \$next\enc_out  = fifo_dout[29:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = fifo_dout[34:30];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[35];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[35];
+  assign enc_out_ctr = fifo_r_data[34:30];
+  assign enc_out = fifo_r_data[29:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, valid_in);
-  wire [13:0] \$10 ;
-  wire [12:0] \$11 ;
-  wire [13:0] \$13 ;
-  wire [13:0] \$15 ;
-  wire [12:0] \$16 ;
-  wire [13:0] \$18 ;
-  wire [12:0] \$6 ;
-  wire [12:0] \$8 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$3 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$4 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$5 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
+module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_in, end_in, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$151  = 0;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$12 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$14 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$15 ;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$6 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$8 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$9 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$11 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$2 ;
+  wire [11:0] \predic_in$2 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:61" *)
   output [12:0] \val_out$3 ;
   reg [12:0] \val_out$3  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$3$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$4 ;
   reg [12:0] \val_out$4  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$4$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$5 ;
   reg [12:0] \val_out$5  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$5$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
-  assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$9  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$12  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$2 ;
+  assign \$15  = \diff$11  - (* src = "difference.py:98" *) 1'h1;
+  assign \$6  = pixel_in - (* src = "difference.py:91" *) predic_in;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$5  <= \$next\val_out$5 ;
+    \val_out$5  <= \val_out$5$next ;
   always @(posedge clk)
-      \val_out$4  <= \$next\val_out$4 ;
+    \val_out$3  <= \val_out$3$next ;
   always @(posedge clk)
-      \val_out$3  <= \$next\val_out$3 ;
+    \val_out$4  <= \val_out$4$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$6 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$6 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$3  = \val_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \val_out$4$next  = \val_out$4 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$3  = \$8 ;
+          \val_out$4$next  = \$9 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$3  = 13'h0000;
+          \val_out$4$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \diff$11  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$11  = \$12 ;
     endcase
   end
   always @* begin
-    \$next\val_out$4  = \val_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \val_out$3$next  = \val_out$3 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$4  = \$10 [12:0];
+          \val_out$3$next  = \diff$11 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$4  = 13'h0000;
+          \val_out$3$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$5  = \val_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \val_out$5$next  = \val_out$5 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$5  = \$15 [12:0];
+          \val_out$5$next  = \$15 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$5  = 13'h0000;
+          \val_out$5$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$10  = \$13 ;
-  assign \$15  = \$18 ;
+  assign \$8  = \$9 ;
+  assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, enc_ctr, \enc_out$3 , \enc_ctr$4 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$4 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$3 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
+module encode(rst, val_in, \val_in$1 , ssss, \ssss$2 , valid_in, end_in, enc_out, \enc_out$3 , enc_ctr, \enc_ctr$4 , valid_out, end_out, clk);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$6 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$25 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$18 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$16 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$7 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$17 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$8 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$14 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$5 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$21 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$4 ;
+  wire [4:0] \enc_ctr$4 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$20 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$3 ;
+  wire [27:0] \enc_out$3 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$15 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$10 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$25 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$6 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$26 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$19 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$18 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$7 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$7 ;
+  wire [4:0] \ssss$2 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$17 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$8 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$14 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$5 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$9 ;
-  \anonymous$2  \$13  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$12 ),
-    .enc_out(\enc_out$11 ),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$10 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$7 ),
-    .val_in(\val_in$8 ),
-    .valid_in(\valid_in$5 ),
-    .valid_out(\valid_out$9 )
-  );
-  \anonymous$3  \$22  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$21 ),
-    .enc_out(\enc_out$20 ),
-    .end_in(\end_in$15 ),
-    .rp_addr(\rp_addr$19 ),
-    .rp_data(\rp_data$18 ),
-    .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$17 ),
-    .valid_in(\valid_in$14 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -2325,511 +2991,466 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, e
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$25 ;
-    _1_ <= \$next\mem_r_addr ;
-  end
-  assign \mem_r_data$26  = mem[_0_];
-  assign mem_r_data = mem[_1_];
-  always @* begin
-    \$next\val_in$8  = 12'h000;
-    \$next\val_in$8  = val_in;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$16  = 5'h00;
-    \$next\ssss$16  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$25  = 4'h0;
-    \$next\mem_r_addr$25  = \rp_addr$19 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$18  = 33'h000000000;
-    \$next\rp_data$18  = \mem_r_data$26 ;
-  end
-  always @* begin
-    \$next\enc_out$3  = 28'h0000000;
-    \$next\enc_out$3  = \enc_out$20 ;
-  end
-  always @* begin
-    \$next\enc_ctr$4  = 5'h00;
-    \$next\enc_ctr$4  = \enc_ctr$21 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$9 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$10 ;
-  end
-  always @* begin
-    \$next\valid_in$5  = 1'h0;
-    \$next\valid_in$5  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = ssss;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$6 ];
   end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$11 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$12 ;
-  end
-  always @* begin
-    \$next\val_in$17  = 12'h000;
-    \$next\val_in$17  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$15  = 1'h0;
-    \$next\end_in$15  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$4  = \$next\enc_ctr$4 ;
-  assign \enc_out$3  = \$next\enc_out$3 ;
-  assign \rp_data$18  = \$next\rp_data$18 ;
-  assign \mem_r_addr$25  = \$next\mem_r_addr$25 ;
-  assign \ssss$16  = \$next\ssss$16 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \end_in$15  = \$next\end_in$15 ;
-  assign \val_in$17  = \$next\val_in$17 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \valid_in$5  = \$next\valid_in$5 ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign \val_in$8  = \$next\val_in$8 ;
+  assign mem_r_data = _0_;
+  assign \mem_r_data$7  = _1_;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$4  = \U$$1_enc_ctr ;
+  assign \enc_out$3  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$7 ;
+  assign \mem_r_addr$6  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$2 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$152  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 63'h0000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$5 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
+module \fifo$4 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$153  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$6  unbuffered (
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$5  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 36'h000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_out, data_out_ctr, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
+module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_out, end_out, data_out_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$154  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -2901,449 +3522,673 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_ou
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
 (* generator = "nMigen" *)
-module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, data_out, o_busy, end_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
+module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$155  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -3456,24 +4301,24 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -3484,1061 +4329,1591 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
-              begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
+module force_end(rst, allowed_cycles, valid_in, fend, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$156  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
+module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$157  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [6:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [6:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [76:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [29:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [4:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [4:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [29:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [6:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 7'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [6:0] buff_consum;
   reg [6:0] buff_consum = 7'h00;
-  (* init = 7'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [6:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [6:0] buff_free = 7'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [6:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 77'h00000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [76:0] buffer;
   reg [76:0] buffer = 77'h00000000000000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [76:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [29:0] enc_in;
-  (* init = 30'h00000000 *)
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [29:0] enc_in_buff = 30'h00000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [29:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [4:0] enc_in_ctr;
-  (* init = 5'h00 *)
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [4:0] enc_in_ctr_buff = 5'h00;
-  (* init = 5'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [4:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [4:0] enc_in_ctr_reg = 5'h00;
-  (* init = 30'h00000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [4:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [29:0] enc_in_reg = 30'h00000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [29:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [6:0] new_buff_consum;
+  reg [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [6:0] new_buff_free;
+  reg [6:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4569,409 +5944,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 5'h00;
+          \enc_in_ctr_reg$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [76:0];
+          \buffer$next  = \$30 [76:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [76:0];
+                      \buffer$next  = \$37 [76:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 77'h00000000000000000000;
+          \buffer$next  = 77'h00000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    new_buff_free = 7'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [6:0];
-      1'hz:
+          new_buff_free = \$46 [6:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [6:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [6:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [6:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    new_buff_consum = 7'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [6:0];
-      1'hz:
+          new_buff_consum = \$59 [6:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [6:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [6:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [6:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 7'h00;
+          \buff_consum$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 7'h4d;
+          \buff_free$next  = 7'h4d;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 7'h00;
+          \buff_free$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 30'h00000000;
+          \enc_in_buff$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 5'h00;
+          \enc_in_ctr_buff$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 30'h00000000;
+          \enc_in_reg$next  = 30'h00000000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -4982,96 +6626,15 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, fend_out, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$5 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$6 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$15 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$14 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$18 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$19 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$10 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$11 ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
+module integration_1(full_clk, rst, full_rst, fend_out, end_of_frame, pixel_in, \pixel_in$1 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -5096,10 +6659,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [55:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [5:0] enc_out_ctr;
+  wire [5:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
@@ -5126,10 +6691,13 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -5138,8 +6706,10 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
@@ -5167,7 +6737,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$12 ;
+  wire [4:0] \normalize_ssss$13 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
@@ -5175,7 +6745,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$13 ;
+  wire [11:0] \normalize_val_out$12 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -5184,10 +6754,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$11 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
@@ -5218,6 +6790,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -5226,10 +6799,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
@@ -5277,345 +6852,159 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .\enc_in_ctr$2 (\merge_enc_in_ctr$19 ),
     .enc_out(merge_enc_out),
     .enc_out_ctr(merge_enc_out_ctr),
-    .end_in(merge_end_in),
-    .end_out(merge_end_out),
-    .rst(rst),
-    .valid_in(merge_valid_in),
-    .valid_out(merge_valid_out)
-  );
-  normalize normalize (
-    .clk(clk),
-    .end_in(normalize_end_in),
-    .end_out(normalize_end_out),
-    .rst(rst),
-    .ssss(normalize_ssss),
-    .\ssss$3 (\normalize_ssss$12 ),
-    .val_in(normalize_val_in),
-    .\val_in$1 (\normalize_val_in$10 ),
-    .val_out(normalize_val_out),
-    .\val_out$4 (\normalize_val_out$13 ),
-    .valid_in(normalize_valid_in),
-    .valid_out(normalize_valid_out),
-    .vals_in_mns(normalize_vals_in_mns),
-    .\vals_in_mns$2 (\normalize_vals_in_mns$11 )
-  );
-  predictor predictor (
-    .clk(clk),
-    .end_in(predictor_end_in),
-    .end_out(predictor_end_out),
-    .new_row(predictor_new_row),
-    .pixel_in(predictor_pixel_in),
-    .\pixel_in$1 (\predictor_pixel_in$2 ),
-    .pixel_out(predictor_pixel_out),
-    .\pixel_out$2 (\predictor_pixel_out$3 ),
-    .predic_out(predictor_predic_out),
-    .\predic_out$3 (\predictor_predic_out$4 ),
-    .rst(rst),
-    .valid_in(predictor_valid_in),
-    .valid_out(predictor_valid_out)
-  );
-  register_file register_file (
-    .allowed_cycles(register_file_allowed_cycles),
-    .full_clk(full_clk),
-    .full_rst(full_rst),
-    .height(register_file_height),
-    .width(register_file_width)
-  );
-  signals signals (
-    .clk(clk),
-    .end_of_frame(end_of_frame),
-    .height(signals_height),
-    .new_input(signals_new_input),
-    .new_row(signals_new_row),
-    .rst(rst),
-    .width(signals_width)
-  );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$5  = 12'h000;
-    \$next\difference_pixel_in$5  = \predictor_pixel_out$3 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$6  = 12'h000;
-    \$next\difference_predic_in$6  = \predictor_predic_out$4 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$10  = 13'h0000;
-    \$next\normalize_val_in$10  = \difference_val_out$7 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$8 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$11  = 13'h0000;
-    \$next\normalize_vals_in_mns$11  = \difference_val_out$9 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$14  = 12'h000;
-    \$next\encode_val_in$14  = \normalize_val_out$13 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$15  = 5'h00;
-    \$next\encode_ssss$15  = \normalize_ssss$12 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in$18  = 28'h0000000;
-    \$next\merge_enc_in$18  = \encode_enc_out$16 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$19  = 5'h00;
-    \$next\merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$2  = 12'h000;
-    \$next\predictor_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$19  = \$next\merge_enc_in_ctr$19 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$18  = \$next\merge_enc_in$18 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$15  = \$next\encode_ssss$15 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$14  = \$next\encode_val_in$14 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$11  = \$next\normalize_vals_in_mns$11 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$10  = \$next\normalize_val_in$10 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$6  = \$next\difference_predic_in$6 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$5  = \$next\difference_pixel_in$5 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$2  = \$next\predictor_pixel_in$2 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+    .end_in(merge_end_in),
+    .end_out(merge_end_out),
+    .rst(rst),
+    .valid_in(merge_valid_in),
+    .valid_out(merge_valid_out)
+  );
+  normalize normalize (
+    .clk(clk),
+    .end_in(normalize_end_in),
+    .end_out(normalize_end_out),
+    .rst(rst),
+    .ssss(normalize_ssss),
+    .\ssss$4 (\normalize_ssss$13 ),
+    .val_in(normalize_val_in),
+    .\val_in$1 (\normalize_val_in$10 ),
+    .val_out(normalize_val_out),
+    .\val_out$3 (\normalize_val_out$12 ),
+    .valid_in(normalize_valid_in),
+    .valid_out(normalize_valid_out),
+    .vals_in_mns(normalize_vals_in_mns),
+    .\vals_in_mns$2 (\normalize_vals_in_mns$11 )
+  );
+  predictor predictor (
+    .clk(clk),
+    .end_in(predictor_end_in),
+    .end_out(predictor_end_out),
+    .new_row(predictor_new_row),
+    .pixel_in(predictor_pixel_in),
+    .\pixel_in$1 (\predictor_pixel_in$2 ),
+    .pixel_out(predictor_pixel_out),
+    .\pixel_out$2 (\predictor_pixel_out$3 ),
+    .predic_out(predictor_predic_out),
+    .\predic_out$3 (\predictor_predic_out$4 ),
+    .rst(rst),
+    .valid_in(predictor_valid_in),
+    .valid_out(predictor_valid_out)
+  );
+  register_file register_file (
+    .allowed_cycles(register_file_allowed_cycles),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .height(register_file_height),
+    .width(register_file_width)
+  );
+  signals signals (
+    .clk(clk),
+    .end_of_frame(end_of_frame),
+    .height(signals_height),
+    .new_input(signals_new_input),
+    .new_row(signals_new_row),
+    .rst(rst),
+    .width(signals_width)
+  );
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$18  = \encode_enc_out$16 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$15  = \normalize_ssss$13 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$14  = \normalize_val_out$12 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$11  = \difference_val_out$9 ;
+  assign normalize_vals_in_mns = \difference_val_out$8 ;
+  assign \normalize_val_in$10  = \difference_val_out$7 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$6  = \predictor_predic_out$4 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$5  = \predictor_pixel_out$3 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$2  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, full_clk, nready, enc_out, enc_out_ctr, valid_out, out_end, fend_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
+module integration_2(full_clk, rst, full_rst, fend_out, pixel_in, \pixel_in$1 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$158  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:61" *)
   wire \$13 ;
+  (* src = "integration_2.py:61" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:62" *)
   wire \$19 ;
+  (* src = "integration_2.py:62" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$3 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$30 ;
+  (* src = "integration_2.py:70" *)
   wire \$32 ;
+  (* src = "integration_2.py:75" *)
   wire \$34 ;
+  (* src = "integration_2.py:75" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:80" *)
   wire \$44 ;
+  (* src = "integration_2.py:80" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:62" *)
   wire \$5 ;
+  (* src = "converter_fifo.py:65" *)
   wire [55:0] \$50 ;
+  (* src = "converter_fifo.py:66" *)
   wire [5:0] \$52 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [55:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [5:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [29:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [4:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [55:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [5:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -5656,34 +7045,40 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [55:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [5:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [55:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [55:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [5:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -5704,69 +7099,80 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$15  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$17  = \$13  | (* src = "integration_2.py:60" *) \$15 ;
-  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$21  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$23  = \$19  & (* src = "integration_2.py:61" *) \$21 ;
-  assign \$25  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$30  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$32  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$36  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$38  = \$34  | (* src = "integration_2.py:74" *) \$36 ;
-  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$40  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$46  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$48  = \$44  & (* src = "integration_2.py:79" *) \$46 ;
+  wire valid_out;
+  assign \$9  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$15  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$17  = \$13  | (* src = "integration_2.py:61" *) \$15 ;
+  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$21  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$23  = \$19  & (* src = "integration_2.py:62" *) \$21 ;
+  assign \$25  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$30  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$32  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$36  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$38  = \$34  | (* src = "integration_2.py:75" *) \$36 ;
+  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$40  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$46  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$48  = \$44  & (* src = "integration_2.py:80" *) \$46 ;
   assign \$50  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$52  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$7  = \$3  & (* src = "integration_2.py:61" *) \$5 ;
+  assign \$5  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$7  = \$3  & (* src = "integration_2.py:62" *) \$5 ;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -5825,248 +7231,150 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$11 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$17 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \nready_end$next  = \$17 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 6'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 56'h00000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 6'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 30'h00000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$27 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 5'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \$50 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \$52 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$29 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \nready_reset_counter$next  = \$30 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$32 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$42 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$2  = 12'h000;
-    \$next\integration_1_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$48 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 56'h00000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
   assign \$29  = \$30 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$2  = \$next\integration_1_pixel_in$2 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$52 ;
+  assign enc_out = \$50 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$48 ;
+  assign \integration_1_pixel_in$2  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$42 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_clk, data_out, valid_out, end_out, nready, fend_out, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [29:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [4:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
+module integration_3(full_clk, rst, full_rst, pixel_in, \pixel_in$1 , valid_in, busy_in, data_out, valid_out, end_out, fend_out, nready, clk);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "integration_3.py:25" *)
+  wire clk;
+  (* src = "integration_3.py:26" *)
   output [15:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [15:0] data_out;
+  (* src = "integration_3.py:31" *)
   output end_out;
-  (* src = "integration_1.py:35" *)
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_2.py:24" *)
-  wire [55:0] integration_2_enc_out;
+  wire full_rst;
   (* src = "integration_2.py:25" *)
-  wire [5:0] integration_2_enc_out_ctr;
+  wire [55:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [5:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -6114,915 +7422,935 @@ module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_c
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$2  = 12'h000;
-    \$next\integration_2_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 30'h00000000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[29:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 5'h00;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[4:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign \integration_2_pixel_in$2  = \$next\integration_2_pixel_in$2 ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[4:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[29:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign \integration_2_pixel_in$2  = \pixel_in$1 ;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$159  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [55:0] enc_in;
+  wire [55:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 9'h1f6;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 63'h0000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = fifo_dout[55:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[61:56];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[62];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[62];
+  assign enc_out_ctr = fifo_r_data[61:56];
+  assign enc_out = fifo_r_data[55:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_out, end_out, data_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.markers" *)
+module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$160  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
   output o_busy;
+  reg o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
-  always @(posedge clk)
-      end_cond <= \$next\end_cond ;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      counter <= \$next\counter ;
-  always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
+  always @(posedge clk)
+    end_cond <= \end_cond$next ;
+  always @(posedge clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge clk)
+    counter <= \counter$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge" *)
+module merge(rst, enc_in, \enc_in$1 , enc_in_ctr, \enc_in_ctr$2 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:112" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [5:0] \$next\enc_out_ctr ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$4 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$3 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
+  wire [4:0] \enc_in_ctr$2 ;
   (* src = "merge.py:112" *)
   output [55:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$6 ;
+  wire [55:0] enc_out;
   (* src = "merge.py:113" *)
   output [5:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$5 ;
+  wire [5:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$4 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$8 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$3 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$7 ;
-  \anonymous$4  \$9  (
+  wire valid_out;
+  \U$$0$3  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$6 ),
-    .enc_out_ctr(\enc_out_ctr$5 ),
-    .end_in(\end_in$4 ),
-    .end_out(\end_out$8 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$3 ),
-    .valid_out(\valid_out$7 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\valid_in$3  = 1'h0;
-    \$next\valid_in$3  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$4  = 1'h0;
-    \$next\end_in$4  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \enc_out$6 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$5 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$7 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$8 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$4  = \$next\end_in$4 ;
-  assign \valid_in$3  = \$next\valid_in$3 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_out_ctr = \U$$0_enc_out_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$2 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , rst, clk, ssss, val_out, \ssss$3 , \val_out$4 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
+module normalize(rst, val_in, \val_in$1 , vals_in_mns, \vals_in_mns$2 , valid_in, end_in, val_out, \val_out$3 , ssss, \ssss$4 , valid_out, end_out, clk);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$6 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$3 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$12 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$5 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$13 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$4 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$11 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$9 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$3 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$8 ;
+  output [4:0] \ssss$4 ;
+  wire [4:0] \ssss$4 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$12 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$13 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$4 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$7 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$11 ;
+  output [11:0] \val_out$3 ;
+  wire [11:0] \val_out$3 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$2 ;
-  anonymous \$10  (
+  wire [12:0] \vals_in_mns$2 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$9 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$8 ),
-    .val_in(\val_in$5 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$7 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$17  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$14 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$12 ),
-    .val_in_mns(\val_in_mns$13 ),
-    .val_out(\val_out$15 ),
-    .valid(\valid$11 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  always @* begin
-    \$next\val_in$5  = 13'h0000;
-    \$next\val_in$5  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out$4  = 12'h000;
-    \$next\val_out$4  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$9 ;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$8 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$7 ;
-  end
-  always @* begin
-    \$next\val_in$12  = 13'h0000;
-    \$next\val_in$12  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$11  = 1'h0;
-    \$next\valid$11  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$13  = 13'h0000;
-    \$next\val_in_mns$13  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$4  = \$next\val_out$4 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \val_in_mns$13  = \$next\val_in_mns$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \valid$11  = \$next\valid$11 ;
-  assign \val_in$12  = \$next\val_in$12 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign valid = \$next\valid ;
-  assign \val_in$5  = \$next\val_in$5 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$3  = \U$$1_val_out ;
+  assign \ssss$4  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$2 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
+module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$161  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [3:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [5:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [6:0] buff_consum;
+  wire [6:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [76:0] buffer;
+  wire [76:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 16'h0000 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [15:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [3:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [5:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -7061,148 +8389,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @* begin
-    \$next\shift_right  = 6'h00;
-    \$next\shift_right  = \$1 [5:0];
-  end
-  always @* begin
-    \$next\shift_left  = 4'h0;
-    \$next\shift_left  = \$4 [3:0];
-  end
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [15:0];
+                      \data_out$next  = \$40 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [15:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [15:0];
+                      \data_out$next  = \$52 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7211,143 +8592,143 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [3:0];
+  assign shift_right = \$2 [5:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
+module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$162  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$10 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$12 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$14 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$21 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$22 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$27 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$28 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$4 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$6 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$8 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$24 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$25 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$26 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$30 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$31 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$32 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out$3 ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$24  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$24$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$25  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$25$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$26  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$26$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg buff_ctr = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$30  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$30$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$31  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$31$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$32  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$32$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg lbuff_ctr = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] \pixel_in$1 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] \pixel_out$2 ;
   reg [11:0] \pixel_out$2  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$2$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] \predic_out$3 ;
   reg [11:0] \predic_out$3  = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$10  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$12  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$14  = \$10  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$12 ;
@@ -7359,452 +8740,577 @@ module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \
   assign \$6  = new_row == (* src = "predictor_p1_c4_pix1_2.py:115" *) 1'h1;
   assign \$8  = \$4  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$6 ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \predic_out$3  <= \$next\predic_out$3 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$32  <= \$next\lbuff$32 ;
+    \lbuff$32  <= \lbuff$32$next ;
   always @(posedge clk)
-      \lbuff$31  <= \$next\lbuff$31 ;
+    \lbuff$31  <= \lbuff$31$next ;
   always @(posedge clk)
-      \lbuff$30  <= \$next\lbuff$30 ;
+    \lbuff$30  <= \lbuff$30$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$26  <= \$next\buff$26 ;
+    \buff$26  <= \buff$26$next ;
   always @(posedge clk)
-      \buff$25  <= \$next\buff$25 ;
+    \buff$25  <= \buff$25$next ;
   always @(posedge clk)
-      \buff$24  <= \$next\buff$24 ;
+    \buff$24  <= \buff$24$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      \pixel_out$2  <= \$next\pixel_out$2 ;
+    \pixel_out$2  <= \pixel_out$2$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$14 , \$8  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$16 ;
-  end
-  always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$27 [0];
+                \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 1'h0;
+          \lbuff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$30  = \lbuff$30 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \lbuff$30$next  = \lbuff$30 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff$30  = \pixel_in$1 ;
+                      \lbuff$30$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$30  = 12'h800;
+          \lbuff$30$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$31  = \lbuff$31 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \lbuff$31$next  = \lbuff$31 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$31  = pixel_in;
+                      \lbuff$31$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$31  = 12'h800;
+          \lbuff$31$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$32  = \lbuff$32 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \lbuff$32$next  = \lbuff$32 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$32  = \pixel_in$1 ;
+                      \lbuff$32$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$32  = 12'h800;
+          \lbuff$32$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out  = \lbuff$31 ;
+                      \predic_out$next  = \lbuff$31 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out  = \buff$25 ;
+                      \predic_out$next  = \buff$25 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$3  = \predic_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out$3  = \lbuff$30 ;
+                      \predic_out$3$next  = \lbuff$30 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out$3  = \lbuff$32 ;
+                      \predic_out$3$next  = \lbuff$32 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out$3  = \buff$24 ;
+                      \predic_out$3$next  = \buff$24 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out$3  = \buff$26 ;
+                      \predic_out$3$next  = \buff$26 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$3  = 12'h000;
+          \predic_out$3$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$18 [31:0];
+          \debug_counter$next  = \$19 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$2  = \pixel_out$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \pixel_out$2$next  = \pixel_out$2 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out$2  = \pixel_in$1 ;
+          \pixel_out$2$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$2  = 12'h000;
+          \pixel_out$2$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$21 [0];
+          \buff_ctr$next  = \$22 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 1'h0;
+          \buff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$24  = \buff$24 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \buff$24$next  = \buff$24 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff$24  = \pixel_in$1 ;
+                \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$24  = 12'h800;
+          \buff$24$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$25  = \buff$25 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \buff$25$next  = \buff$25 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$25  = pixel_in;
+                \buff$25$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$25  = 12'h800;
+          \buff$25$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$26  = \buff$26 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \buff$26$next  = \buff$26 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$26  = \pixel_in$1 ;
+                \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$26  = 12'h800;
+          \buff$26$next  = 12'h800;
     endcase
   end
   assign \$18  = \$19 ;
   assign \$21  = \$22 ;
   assign \$27  = \$28 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$16 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_clk, width, height, allowed_cycles, full_rst);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.register_file" *)
+module register_file(full_rst, height, width, allowed_cycles, full_clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$163  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
+module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$164  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -7819,124 +9325,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 2'h2;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7945,35 +9520,15 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tlast, m_tdata, s_tready, m_tready);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_tlast, m_tready, m_tdata, s_tvalid, s_tready, s_tdata, full_clk, full_rst, m_tvalid);
+  (* src = "beta_integration_fifo_axistream.py:45" *)
   wire \$1 ;
+  (* src = "beta_integration_fifo_axistream.py:52" *)
   wire \$3 ;
   (* src = "b64_b32_2.py:39" *)
-  reg [63:0] \$next\b64_b32_data_in ;
-  (* src = "b64_b32_2.py:49" *)
-  reg \$next\b64_b32_i_busy ;
-  (* src = "b64_b32_2.py:45" *)
-  reg \$next\b64_b32_valid_in ;
-  (* src = "beta_integration_fifo_axistream.py:16" *)
-  reg [15:0] \$next\m_tdata ;
-  (* src = "beta_integration_fifo_axistream.py:14" *)
-  reg \$next\m_tlast ;
-  (* src = "beta_integration_fifo_axistream.py:13" *)
-  reg \$next\m_tvalid ;
-  (* src = "beta_integration_fifo_axistream.py:20" *)
-  reg \$next\s_tready ;
-  (* src = "beta_integration.py:43" *)
-  reg \$next\top_module_busy_in ;
-  (* src = "beta_integration.py:32" *)
-  reg [11:0] \$next\top_module_pixel_in1 ;
-  (* src = "beta_integration.py:33" *)
-  reg [11:0] \$next\top_module_pixel_in2 ;
-  (* src = "beta_integration.py:39" *)
-  reg \$next\top_module_valid_in ;
-  (* src = "b64_b32_2.py:39" *)
   wire [63:0] b64_b32_data_in;
   (* src = "b64_b32_2.py:42" *)
   wire [23:0] b64_b32_data_out;
@@ -7987,22 +9542,31 @@ module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tlast, m_tdata, s_
   wire b64_b32_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "beta_integration_fifo_axistream.py:16" *)
+  wire full_rst;
+  (* src = "beta_integration_fifo_axistream.py:17" *)
   output [15:0] m_tdata;
-  (* src = "beta_integration_fifo_axistream.py:14" *)
-  output m_tlast;
+  wire [15:0] m_tdata;
   (* src = "beta_integration_fifo_axistream.py:15" *)
+  output m_tlast;
+  wire m_tlast;
+  (* src = "beta_integration_fifo_axistream.py:16" *)
   input m_tready;
-  (* src = "beta_integration_fifo_axistream.py:13" *)
+  wire m_tready;
+  (* src = "beta_integration_fifo_axistream.py:14" *)
   output m_tvalid;
-  (* src = "beta_integration_fifo_axistream.py:21" *)
+  wire m_tvalid;
+  (* src = "beta_integration_fifo_axistream.py:22" *)
   input [63:0] s_tdata;
-  (* src = "beta_integration_fifo_axistream.py:20" *)
+  wire [63:0] s_tdata;
+  (* src = "beta_integration_fifo_axistream.py:21" *)
   output s_tready;
-  (* src = "beta_integration_fifo_axistream.py:19" *)
+  wire s_tready;
+  (* src = "beta_integration_fifo_axistream.py:20" *)
   input s_tvalid;
+  wire s_tvalid;
   (* src = "beta_integration.py:43" *)
   wire top_module_busy_in;
   (* src = "beta_integration.py:36" *)
@@ -8019,8 +9583,8 @@ module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tlast, m_tdata, s_
   wire top_module_valid_in;
   (* src = "beta_integration.py:40" *)
   wire top_module_valid_out;
-  assign \$1  = m_tready == (* src = "beta_integration_fifo_axistream.py:44" *) 1'h0;
-  assign \$3  = b64_b32_o_busy == (* src = "beta_integration_fifo_axistream.py:51" *) 1'h0;
+  assign \$1  = m_tready == (* src = "beta_integration_fifo_axistream.py:45" *) 1'h0;
+  assign \$3  = b64_b32_o_busy == (* src = "beta_integration_fifo_axistream.py:52" *) 1'h0;
   b64_b32 b64_b32 (
     .data_in(b64_b32_data_in),
     .data_out(b64_b32_data_out),
@@ -8037,131 +9601,41 @@ module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tlast, m_tdata, s_
     .end_out(top_module_end_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
-    .nready(top_module_nready),
-    .pixel_in1(top_module_pixel_in1),
-    .pixel_in2(top_module_pixel_in2),
-    .valid_in(top_module_valid_in),
-    .valid_out(top_module_valid_out)
-  );
-  always @* begin
-    \$next\m_tdata  = 16'h0000;
-    \$next\m_tdata  = top_module_data_out;
-  end
-  always @* begin
-    \$next\m_tlast  = 1'h0;
-    \$next\m_tlast  = top_module_end_out;
-  end
-  always @* begin
-    \$next\top_module_valid_in  = 1'h0;
-    \$next\top_module_valid_in  = b64_b32_valid_out;
-  end
-  always @* begin
-    \$next\top_module_busy_in  = 1'h0;
-    \$next\top_module_busy_in  = \$1 ;
-  end
-  always @* begin
-    \$next\m_tvalid  = 1'h0;
-    \$next\m_tvalid  = top_module_valid_out;
-  end
-  always @* begin
-    \$next\b64_b32_data_in  = 64'h0000000000000000;
-    \$next\b64_b32_data_in  = s_tdata;
-  end
-  always @* begin
-    \$next\s_tready  = 1'h0;
-    \$next\s_tready  = \$3 ;
-  end
-  always @* begin
-    \$next\b64_b32_valid_in  = 1'h0;
-    \$next\b64_b32_valid_in  = s_tvalid;
-  end
-  always @* begin
-    \$next\top_module_pixel_in1  = 12'h000;
-    \$next\top_module_pixel_in1  = b64_b32_data_out[23:12];
-  end
-  always @* begin
-    \$next\top_module_pixel_in2  = 12'h000;
-    \$next\top_module_pixel_in2  = b64_b32_data_out[11:0];
-  end
-  always @* begin
-    \$next\b64_b32_i_busy  = 1'h0;
-    \$next\b64_b32_i_busy  = top_module_nready;
-  end
-  assign top_module_valid_in = \$next\top_module_valid_in ;
-  assign b64_b32_i_busy = \$next\b64_b32_i_busy ;
-  assign top_module_pixel_in2 = \$next\top_module_pixel_in2 ;
-  assign top_module_pixel_in1 = \$next\top_module_pixel_in1 ;
-  assign b64_b32_valid_in = \$next\b64_b32_valid_in ;
-  assign s_tready = \$next\s_tready ;
-  assign b64_b32_data_in = \$next\b64_b32_data_in ;
-  assign m_tvalid = \$next\m_tvalid ;
-  assign top_module_busy_in = \$next\top_module_busy_in ;
-  assign m_tlast = \$next\m_tlast ;
-  assign m_tdata = \$next\m_tdata ;
+    .nready(top_module_nready),
+    .pixel_in1(top_module_pixel_in1),
+    .pixel_in2(top_module_pixel_in2),
+    .valid_in(top_module_valid_in),
+    .valid_out(top_module_valid_out)
+  );
+  assign top_module_valid_in = b64_b32_valid_out;
+  assign b64_b32_i_busy = top_module_nready;
+  assign top_module_pixel_in2 = b64_b32_data_out[11:0];
+  assign top_module_pixel_in1 = b64_b32_data_out[23:12];
+  assign b64_b32_valid_in = s_tvalid;
+  assign s_tready = \$3 ;
+  assign b64_b32_data_in = s_tdata;
+  assign m_tvalid = top_module_valid_out;
+  assign top_module_busy_in = \$1 ;
+  assign m_tlast = top_module_end_out;
+  assign m_tdata = top_module_data_out;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module" *)
 (* generator = "nMigen" *)
-module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, valid_out, end_out, nready, full_clk);
+(* \nmigen.hierarchy  = "top.top_module" *)
+module top_module(end_out, busy_in, valid_out, pixel_in1, pixel_in2, nready, valid_in, full_clk, full_rst, data_out);
+  (* src = "beta_integration.py:131" *)
+  wire \$10 ;
+  (* src = "beta_integration.py:131" *)
+  wire \$12 ;
+  (* src = "beta_integration.py:69" *)
   wire \$2 ;
+  (* src = "beta_integration.py:69" *)
   wire \$4 ;
+  (* src = "beta_integration.py:69" *)
   wire \$6 ;
+  (* src = "beta_integration.py:76" *)
   wire \$8 ;
   (* src = "auto_reset.py:34" *)
-  reg \$next\auto_reset_end_in ;
-  (* src = "auto_reset.py:37" *)
-  reg \$next\auto_reset_hs1_in ;
-  (* src = "auto_reset.py:40" *)
-  reg \$next\auto_reset_hs2_in ;
-  (* src = "beta_integration.py:36" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "beta_integration.py:41" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:149" *)
-  reg [31:0] \$next\fix_0xff2_data_in ;
-  (* src = "fix_0xff2.py:150" *)
-  reg [2:0] \$next\fix_0xff2_data_in_ctr ;
-  (* src = "fix_0xff2.py:159" *)
-  reg \$next\fix_0xff2_end_in ;
-  (* src = "fix_0xff2.py:163" *)
-  reg \$next\fix_0xff2_i_busy ;
-  (* src = "fix_0xff2.py:156" *)
-  reg \$next\fix_0xff2_valid_in ;
-  (* src = "fix_0xff.py:69" *)
-  reg [15:0] \$next\fix_0xff_data_in ;
-  (* src = "fix_0xff.py:81" *)
-  reg \$next\fix_0xff_end_in ;
-  (* src = "fix_0xff.py:79" *)
-  reg \$next\fix_0xff_i_busy ;
-  (* src = "fix_0xff.py:76" *)
-  reg \$next\fix_0xff_valid_in ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\integration_3_busy_in ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\integration_3_clk ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in$1 ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\integration_3_rst ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\integration_3_valid_in ;
-  (* src = "markers.py:35" *)
-  reg [15:0] \$next\markers_data_in ;
-  (* src = "markers.py:44" *)
-  reg \$next\markers_end_in ;
-  (* src = "markers.py:45" *)
-  reg \$next\markers_force_end_in ;
-  (* src = "markers.py:49" *)
-  reg \$next\markers_i_busy ;
-  (* src = "markers.py:41" *)
-  reg \$next\markers_valid_in ;
-  (* src = "beta_integration.py:42" *)
-  reg \$next\nready ;
-  (* src = "beta_integration.py:40" *)
-  reg \$next\valid_out ;
-  (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
   (* src = "auto_reset.py:37" *)
   wire auto_reset_hs1_in;
@@ -8171,10 +9645,13 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire auto_reset_reset_out;
   (* src = "beta_integration.py:43" *)
   input busy_in;
+  wire busy_in;
   (* src = "beta_integration.py:36" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "beta_integration.py:41" *)
   output end_out;
+  wire end_out;
   (* src = "fix_0xff2.py:149" *)
   wire [31:0] fix_0xff2_data_in;
   (* src = "fix_0xff2.py:150" *)
@@ -8213,29 +9690,31 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire fix_0xff_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3.py:32" *)
+  wire full_rst;
+  (* src = "integration_3.py:33" *)
   wire integration_3_busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   wire integration_3_clk;
-  (* src = "integration_3.py:25" *)
+  (* src = "integration_3.py:26" *)
   wire [15:0] integration_3_data_out;
-  (* src = "integration_3.py:30" *)
+  (* src = "integration_3.py:31" *)
   wire integration_3_end_out;
-  (* src = "integration_1.py:35" *)
+  (* src = "integration_1.py:36" *)
   wire integration_3_fend_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   wire integration_3_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] integration_3_pixel_in;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \integration_3_pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   wire integration_3_rst;
-  (* src = "integration_3.py:28" *)
-  wire integration_3_valid_in;
   (* src = "integration_3.py:29" *)
+  wire integration_3_valid_in;
+  (* src = "integration_3.py:30" *)
   wire integration_3_valid_out;
   (* src = "markers.py:35" *)
   wire [15:0] markers_data_in;
@@ -8257,14 +9736,21 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
   wire markers_valid_out;
   (* src = "beta_integration.py:42" *)
   output nready;
+  wire nready;
   (* src = "beta_integration.py:32" *)
   input [11:0] pixel_in1;
+  wire [11:0] pixel_in1;
   (* src = "beta_integration.py:33" *)
   input [11:0] pixel_in2;
+  wire [11:0] pixel_in2;
   (* src = "beta_integration.py:39" *)
   input valid_in;
+  wire valid_in;
   (* src = "beta_integration.py:40" *)
   output valid_out;
+  wire valid_out;
+  assign \$10  = auto_reset_reset_out == (* src = "beta_integration.py:131" *) 1'h0;
+  assign \$12  = markers_valid_out & (* src = "beta_integration.py:131" *) \$10 ;
   assign \$2  = auto_reset_reset_out == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
@@ -8331,281 +9817,138 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, data_out, v
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
   );
-  always @* begin
-    \$next\integration_3_clk  = 1'h0;
-    \$next\integration_3_clk  = full_clk;
-  end
-  always @* begin
-    \$next\integration_3_rst  = 1'h0;
-    \$next\integration_3_rst  = \$6 ;
-  end
-  always @* begin
-    \$next\fix_0xff_valid_in  = 1'h0;
-    \$next\fix_0xff_valid_in  = integration_3_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff_end_in  = 1'h0;
-    \$next\fix_0xff_end_in  = integration_3_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff_i_busy  = 1'h0;
-    \$next\fix_0xff_i_busy  = fix_0xff2_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in  = 32'd0;
-    \$next\fix_0xff2_data_in  = fix_0xff_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_valid_in  = 1'h0;
-    \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_end_in  = 1'h0;
-    \$next\fix_0xff2_end_in  = fix_0xff_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = markers_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in_ctr  = 3'h0;
-    \$next\fix_0xff2_data_in_ctr  = fix_0xff_data_out_ctr;
-  end
-  always @* begin
-    \$next\markers_data_in  = 16'h0000;
-    \$next\markers_data_in  = fix_0xff2_data_out;
-  end
-  always @* begin
-    \$next\markers_valid_in  = 1'h0;
-    \$next\markers_valid_in  = fix_0xff2_valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_end_in  = 1'h0;
-    \$next\auto_reset_end_in  = end_out;
-  end
-  always @* begin
-    \$next\markers_force_end_in  = 1'h0;
-    \$next\markers_force_end_in  = integration_3_fend_out;
-  end
-  always @* begin
-    \$next\markers_end_in  = 1'h0;
-    \$next\markers_end_in  = fix_0xff2_end_out;
-  end
-  always @* begin
-    \$next\markers_i_busy  = 1'h0;
-    \$next\markers_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = markers_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = markers_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_3_nready;
-  end
-  always @* begin
-    \$next\auto_reset_hs1_in  = 1'h0;
-    \$next\auto_reset_hs1_in  = valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_hs2_in  = 1'h0;
-    \$next\auto_reset_hs2_in  = \$8 ;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in  = 12'h000;
-    \$next\integration_3_pixel_in  = pixel_in1;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in$1  = 12'h000;
-    \$next\integration_3_pixel_in$1  = pixel_in2;
-  end
-  always @* begin
-    \$next\integration_3_valid_in  = 1'h0;
-    \$next\integration_3_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_3_busy_in  = 1'h0;
-    \$next\integration_3_busy_in  = fix_0xff_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff_data_in  = 16'h0000;
-    \$next\fix_0xff_data_in  = integration_3_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign markers_i_busy = \$next\markers_i_busy ;
-  assign markers_end_in = \$next\markers_end_in ;
-  assign markers_force_end_in = \$next\markers_force_end_in ;
-  assign markers_valid_in = \$next\markers_valid_in ;
-  assign markers_data_in = \$next\markers_data_in ;
-  assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
-  assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
-  assign fix_0xff2_end_in = \$next\fix_0xff2_end_in ;
-  assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
-  assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
-  assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
-  assign fix_0xff_end_in = \$next\fix_0xff_end_in ;
-  assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
-  assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
-  assign integration_3_busy_in = \$next\integration_3_busy_in ;
-  assign integration_3_valid_in = \$next\integration_3_valid_in ;
-  assign \integration_3_pixel_in$1  = \$next\integration_3_pixel_in$1 ;
-  assign integration_3_pixel_in = \$next\integration_3_pixel_in ;
-  assign auto_reset_hs2_in = \$next\auto_reset_hs2_in ;
-  assign auto_reset_hs1_in = \$next\auto_reset_hs1_in ;
-  assign auto_reset_end_in = \$next\auto_reset_end_in ;
-  assign integration_3_rst = \$next\integration_3_rst ;
-  assign integration_3_clk = \$next\integration_3_clk ;
+  assign nready = integration_3_nready;
+  assign end_out = markers_end_out;
+  assign valid_out = \$12 ;
+  assign data_out = markers_data_out;
+  assign markers_i_busy = busy_in;
+  assign markers_end_in = fix_0xff2_end_out;
+  assign markers_force_end_in = integration_3_fend_out;
+  assign markers_valid_in = fix_0xff2_valid_out;
+  assign markers_data_in = fix_0xff2_data_out;
+  assign fix_0xff2_data_in_ctr = fix_0xff_data_out_ctr;
+  assign fix_0xff2_i_busy = markers_o_busy;
+  assign fix_0xff2_end_in = fix_0xff_end_out;
+  assign fix_0xff2_valid_in = fix_0xff_valid_out;
+  assign fix_0xff2_data_in = fix_0xff_data_out;
+  assign fix_0xff_i_busy = fix_0xff2_o_busy;
+  assign fix_0xff_end_in = integration_3_end_out;
+  assign fix_0xff_valid_in = integration_3_valid_out;
+  assign fix_0xff_data_in = integration_3_data_out;
+  assign integration_3_busy_in = fix_0xff_o_busy;
+  assign integration_3_valid_in = valid_in;
+  assign \integration_3_pixel_in$1  = pixel_in2;
+  assign integration_3_pixel_in = pixel_in1;
+  assign auto_reset_hs2_in = \$8 ;
+  assign auto_reset_hs1_in = valid_out;
+  assign auto_reset_end_in = end_out;
+  assign integration_3_rst = \$6 ;
+  assign integration_3_clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$165  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [62:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [62:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [62:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [62:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [62:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [62:0] storage [510:0];
   initial begin
     storage[0] = 63'h0000000000000000;
@@ -9120,238 +10463,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[509] = 63'h0000000000000000;
     storage[510] = 63'h0000000000000000;
   end
-  reg [62:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [62:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 63'h0000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$5 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$166  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [35:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [35:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [35:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [35:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [35:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [35:0] storage [510:0];
   initial begin
     storage[0] = 36'h000000000;
@@ -9866,145 +11183,133 @@ module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level
     storage[509] = 36'h000000000;
     storage[510] = 36'h000000000;
   end
-  reg [35:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [35:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 36'h000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [29:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [4:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [6:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [76:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
+module vbits_to_cbits(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, clk);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [6:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -10027,6 +11332,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -10047,10 +11353,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -10077,75 +11386,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 30'h00000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 5'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 77'h00000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 7'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 7'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/beta_integration_fifo_lvds.v b/verilog_src/beta_integration_fifo_lvds.v
index 15bd032..06ed8ed 100644
--- a/verilog_src/beta_integration_fifo_lvds.v
+++ b/verilog_src/beta_integration_fifo_lvds.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$151  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$152  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge.U$$0" *)
+module \U$$0$3 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$153  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.U$$1" *)
+module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$154  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,791 +947,669 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\ssss  = ssss;
-    casez (valid)
-      1'h1:
-          casez (\$61 )
-            1'h1:
-                casez (\$63 )
-                  1'h1:
-                      casez (\$65 )
-                        1'h1:
-                            casez (\$67 )
-                              1'h1:
-                                  casez (\$69 )
-                                    1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
-                                  endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
-                            endcase
-                        1'hz:
-                            casez (\$71 )
-                              1'h1:
-                                  casez (\$73 )
-                                    1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
-                                  endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
-                            endcase
-                      endcase
-                  1'hz:
-                      casez (\$75 )
-                        1'h1:
-                            casez (\$77 )
-                              1'h1:
-                                  casez (\$79 )
-                                    1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
-                                  endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
-                            endcase
-                        1'hz:
-                            casez (\$81 )
-                              1'h1:
-                                  casez (\$83 )
-                                    1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
-                                  endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
-                            endcase
-                      endcase
-                endcase
-            1'hz:
-              begin
-                \$next\ssss  = 5'h00;
-                casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
-                endcase
-              end
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\ssss  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
-    casez (rst)
-      1'h1:
-          \$next\valid_o  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$11  = \$12 ;
-  assign \$14  = \$15 ;
-  assign \$17  = \$18 ;
-  assign \$24  = \$25 ;
-  assign \$27  = \$28 ;
-  assign \$30  = \$31 ;
-  assign \$39  = \$40 ;
-  assign \$42  = \$43 ;
-  assign \$45  = \$46 ;
-  assign \$52  = \$53 ;
-  assign \$55  = \$56 ;
-  assign \$58  = \$59 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$2 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
+    casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          (* src = "normalize.py:156" *)
+          casez (\$61 )
+            /* src = "normalize.py:156" */
+            1'h1:
+                (* src = "normalize.py:81" *)
+                casez (\$63 )
+                  /* src = "normalize.py:81" */
+                  1'h1:
+                      (* src = "normalize.py:81" *)
+                      casez (\$65 )
+                        /* src = "normalize.py:81" */
+                        1'h1:
+                            (* src = "normalize.py:81" *)
+                            casez (\$67 )
+                              /* src = "normalize.py:81" */
+                              1'h1:
+                                  (* src = "normalize.py:65" *)
+                                  casez (\$69 )
+                                    /* src = "normalize.py:65" */
+                                    1'h1:
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
+                                  endcase
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
+                            endcase
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
+                            casez (\$71 )
+                              /* src = "normalize.py:81" */
+                              1'h1:
+                                  (* src = "normalize.py:65" *)
+                                  casez (\$73 )
+                                    /* src = "normalize.py:65" */
+                                    1'h1:
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
+                                  endcase
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
+                            endcase
+                      endcase
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
+                      casez (\$75 )
+                        /* src = "normalize.py:81" */
+                        1'h1:
+                            (* src = "normalize.py:81" *)
+                            casez (\$77 )
+                              /* src = "normalize.py:81" */
+                              1'h1:
+                                  (* src = "normalize.py:65" *)
+                                  casez (\$79 )
+                                    /* src = "normalize.py:65" */
+                                    1'h1:
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
+                                  endcase
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
+                            endcase
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
+                            casez (\$81 )
+                              /* src = "normalize.py:81" */
+                              1'h1:
+                                  (* src = "normalize.py:65" *)
+                                  casez (\$83 )
+                                    /* src = "normalize.py:65" */
+                                    1'h1:
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
+                                  endcase
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
+                            endcase
+                      endcase
+                endcase
+            /* src = "normalize.py:161" */
+            default:
+              begin
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
+                casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
+                endcase
+              end
+          endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \valid_o$next  = 1'h0;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign \$11  = \$12 ;
+  assign \$14  = \$15 ;
+  assign \$17  = \$18 ;
+  assign \$24  = \$25 ;
+  assign \$27  = \$28 ;
+  assign \$30  = \$31 ;
+  assign \$39  = \$40 ;
+  assign \$42  = \$43 ;
+  assign \$45  = \$46 ;
+  assign \$52  = \$53 ;
+  assign \$55  = \$56 ;
+  assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$3 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.U$$1" *)
+module \U$$1$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$155  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$4 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 56'h00000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$3  = \$6 ;
-endmodule
-
 (* \nmigen.hierarchy  = "top.top_module.auto_reset" *)
-(* generator = "nMigen" *)
-module auto_reset(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$156  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.b16_b40" *)
 (* generator = "nMigen" *)
-module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_out, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.b16_b40" *)
+module b16_b40(i_busy, valid_out, data_in, o_busy, valid_in, full_clk, full_rst, data_out);
+  reg \$auto$verilog_backend.cc:2184:dump_module$157  = 0;
+  (* src = "b16_b40.py:85" *)
   wire \$1 ;
+  (* src = "b16_b40.py:82" *)
   wire \$11 ;
+  (* src = "b16_b40.py:82" *)
   wire \$13 ;
+  (* src = "b16_b40.py:82" *)
   wire \$15 ;
+  (* src = "b16_b40.py:82" *)
   wire \$17 ;
+  (* src = "b16_b40.py:85" *)
   wire \$19 ;
+  (* src = "b16_b40.py:85" *)
   wire \$21 ;
+  (* src = "b16_b40.py:85" *)
   wire \$23 ;
+  (* src = "b16_b40.py:87" *)
   wire \$25 ;
+  (* src = "b16_b40.py:85" *)
   wire \$27 ;
+  (* src = "b16_b40.py:85" *)
   wire \$29 ;
+  (* src = "b16_b40.py:85" *)
   wire \$3 ;
+  (* src = "b16_b40.py:85" *)
   wire \$31 ;
+  (* src = "b16_b40.py:88" *)
   wire \$33 ;
+  (* src = "b16_b40.py:85" *)
   wire \$35 ;
+  (* src = "b16_b40.py:85" *)
   wire \$37 ;
+  (* src = "b16_b40.py:85" *)
   wire \$39 ;
+  (* src = "b16_b40.py:90" *)
   wire \$41 ;
+  (* src = "b16_b40.py:99" *)
   wire \$43 ;
+  (* src = "b16_b40.py:121" *)
   wire \$45 ;
+  (* src = "b16_b40.py:136" *)
   wire \$47 ;
+  (* src = "b16_b40.py:154" *)
   wire \$49 ;
+  (* src = "b16_b40.py:85" *)
   wire \$5 ;
+  (* src = "b16_b40.py:99" *)
   wire \$51 ;
+  (* src = "b16_b40.py:121" *)
   wire \$53 ;
+  (* src = "b16_b40.py:136" *)
   wire \$55 ;
+  (* src = "b16_b40.py:154" *)
   wire \$57 ;
+  (* src = "b16_b40.py:121" *)
   wire \$59 ;
+  (* src = "b16_b40.py:136" *)
   wire \$61 ;
-  wire [7:0] \$63 ;
-  wire \$65 ;
+  (* src = "b16_b40.py:121" *)
+  wire \$63 ;
+  (* src = "b16_b40.py:76" *)
   wire \$7 ;
+  (* src = "b16_b40.py:82" *)
   wire \$9 ;
   (* src = "b16_b40.py:66" *)
-  reg \$next\buff_chs ;
-  (* src = "b16_b40.py:58" *)
-  reg [39:0] \$next\buffer1 ;
-  (* src = "b16_b40.py:59" *)
-  reg \$next\buffer1_valid ;
-  (* src = "b16_b40.py:62" *)
-  reg [39:0] \$next\buffer2 ;
-  (* src = "b16_b40.py:63" *)
-  reg \$next\buffer2_valid ;
-  (* src = "b16_b40.py:38" *)
-  reg [39:0] \$next\data_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "b16_b40.py:69" *)
-  reg \$next\is_valid ;
-  (* src = "b16_b40.py:44" *)
-  reg \$next\o_busy ;
-  (* src = "b16_b40.py:73" *)
-  reg \$next\temp_8 ;
-  (* src = "b16_b40.py:42" *)
-  reg \$next\valid_out ;
-  (* init = 1'h0 *)
-  (* src = "b16_b40.py:66" *)
   reg buff_chs = 1'h0;
-  (* init = 40'h0000000000 *)
+  (* src = "b16_b40.py:66" *)
+  reg \buff_chs$next ;
   (* src = "b16_b40.py:58" *)
   reg [39:0] buffer1 = 40'h0000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b40.py:58" *)
+  reg [39:0] \buffer1$next ;
   (* src = "b16_b40.py:59" *)
   reg buffer1_valid = 1'h0;
-  (* init = 40'h0000000000 *)
+  (* src = "b16_b40.py:59" *)
+  reg \buffer1_valid$next ;
   (* src = "b16_b40.py:62" *)
   reg [39:0] buffer2 = 40'h0000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b40.py:62" *)
+  reg [39:0] \buffer2$next ;
   (* src = "b16_b40.py:63" *)
   reg buffer2_valid = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
+  (* src = "b16_b40.py:63" *)
+  reg \buffer2_valid$next ;
   (* src = "b16_b40.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "b16_b40.py:38" *)
   output [39:0] data_out;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  reg [39:0] data_out;
+  (* src = "b16_b40.py:94" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "b16_b40.py:94" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "b16_b40.py:45" *)
   input i_busy;
+  wire i_busy;
   (* src = "b16_b40.py:69" *)
-  wire is_valid;
-  (* init = 1'h0 *)
+  reg is_valid;
   (* src = "b16_b40.py:44" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* init = 1'h0 *)
+  (* src = "b16_b40.py:44" *)
+  reg \o_busy$next ;
   (* src = "b16_b40.py:73" *)
-  reg temp_8 = 1'h0;
+  reg [7:0] temp_8 = 8'h00;
+  (* src = "b16_b40.py:73" *)
+  reg [7:0] \temp_8$next ;
   (* src = "b16_b40.py:41" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "b16_b40.py:42" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "b16_b40.py:42" *)
+  reg \valid_out$next ;
   assign \$9  = buffer1_valid == (* src = "b16_b40.py:82" *) 1'h1;
   assign \$11  = buffer2_valid == (* src = "b16_b40.py:82" *) 1'h1;
   assign \$13  = \$9  | (* src = "b16_b40.py:82" *) \$11 ;
@@ -1268,397 +1640,672 @@ module b16_b40(valid_in, data_in, full_rst, rst, full_clk, clk, data_out, valid_
   assign \$5  = \$1  & (* src = "b16_b40.py:85" *) \$3 ;
   assign \$59  = buffer2_valid == (* src = "b16_b40.py:121" *) 1'h0;
   assign \$61  = buffer2_valid == (* src = "b16_b40.py:136" *) 1'h0;
-  assign \$63  = + (* src = "b16_b40.py:73" *) temp_8;
-  assign \$65  = buffer2_valid == (* src = "b16_b40.py:121" *) 1'h0;
+  assign \$63  = buffer2_valid == (* src = "b16_b40.py:121" *) 1'h0;
   assign \$7  = buff_chs == (* src = "b16_b40.py:76" *) 1'h0;
   always @(posedge full_clk)
-      temp_8 <= \$next\temp_8 ;
+    temp_8 <= \temp_8$next ;
   always @(posedge full_clk)
-      buffer2 <= \$next\buffer2 ;
+    buffer2 <= \buffer2$next ;
   always @(posedge full_clk)
-      buffer1 <= \$next\buffer1 ;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    buffer1 <= \buffer1$next ;
+  always @(posedge full_clk)
+    fsm_state <= \fsm_state$next ;
   always @(posedge full_clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge full_clk)
-      buffer2_valid <= \$next\buffer2_valid ;
+    buffer2_valid <= \buffer2_valid$next ;
   always @(posedge full_clk)
-      buffer1_valid <= \$next\buffer1_valid ;
+    buffer1_valid <= \buffer1_valid$next ;
   always @(posedge full_clk)
-      buff_chs <= \$next\buff_chs ;
+    buff_chs <= \buff_chs$next ;
   always @(posedge full_clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @* begin
-    \$next\is_valid  = 1'h0;
-    \$next\is_valid  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    is_valid = 1'h1;
+    (* src = "b16_b40.py:85" *)
     casez (\$5 )
+      /* src = "b16_b40.py:85" */
       1'h1:
-          \$next\is_valid  = 1'h0;
+          is_valid = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 40'h0000000000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    (* src = "b16_b40.py:76" *)
     casez (\$7 )
+      /* src = "b16_b40.py:76" */
       1'h1:
-          \$next\data_out  = buffer1;
-      1'hz:
-          \$next\data_out  = buffer2;
+          data_out = buffer1;
+      /* src = "b16_b40.py:78" */
+      default:
+          data_out = buffer2;
     endcase
   end
   always @* begin
-    \$next\temp_8  = temp_8;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \temp_8$next  = temp_8;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
-                casez (\$65 )
+                (* src = "b16_b40.py:121" *)
+                casez (\$63 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\temp_8  = data_in[0];
+                  /* src = "b16_b40.py:125" */
+                  default:
+                      \temp_8$next  = data_in[7:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\temp_8  = 1'h0;
+          \temp_8$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = \$17 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_out$next  = \$17 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_chs  = buff_chs;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buff_chs$next  = buff_chs;
+    (* src = "b16_b40.py:85" *)
     casez (\$23 )
+      /* src = "b16_b40.py:85" */
       1'h1:
-          \$next\buff_chs  = \$25 ;
+          \buff_chs$next  = \$25 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buff_chs  = 1'h0;
+          \buff_chs$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1_valid  = buffer1_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buffer1_valid$next  = buffer1_valid;
+    (* src = "b16_b40.py:85" *)
     casez (\$31 )
+      /* src = "b16_b40.py:85" */
       1'h1:
+          (* src = "b16_b40.py:88" *)
           casez (\$33 )
+            /* src = "b16_b40.py:88" */
             1'h1:
-                \$next\buffer1_valid  = 1'h0;
+                \buffer1_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
-                \$next\buffer1_valid  = 1'h1;
+                \buffer1_valid$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer1_valid  = 1'h0;
+          \buffer1_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer2_valid  = buffer2_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buffer2_valid$next  = buffer2_valid;
+    (* src = "b16_b40.py:85" *)
     casez (\$39 )
+      /* src = "b16_b40.py:85" */
       1'h1:
+          (* src = "b16_b40.py:90" *)
           casez (\$41 )
+            /* src = "b16_b40.py:90" */
             1'h1:
-                \$next\buffer2_valid  = 1'h0;
+                \buffer2_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      3'h3:
+          /* empty */;
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
+      3'h5:
+          /* empty */;
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
+      3'h4:
+          /* empty */;
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
-                \$next\buffer2_valid  = 1'h1;
+                \buffer2_valid$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer2_valid  = 1'h0;
+          \buffer2_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       3'h0:
+          (* src = "b16_b40.py:99" *)
           casez (\$43 )
+            /* src = "b16_b40.py:99" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
+                (* src = "b16_b40.py:121" *)
                 casez (\$45 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b40.py:125" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
       3'h5:
+          (* src = "b16_b40.py:136" *)
           casez (\$47 )
+            /* src = "b16_b40.py:136" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
+      3'h4:
+          /* empty */;
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
+                (* src = "b16_b40.py:154" *)
                 casez (\$49 )
+                  /* src = "b16_b40.py:154" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b40.py:157" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       3'h0:
+          (* src = "b16_b40.py:99" *)
           casez (\$51 )
+            /* src = "b16_b40.py:99" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       3'h1:
+          (* src = "b16_b40.py:104" *)
           casez (valid_in)
+            /* src = "b16_b40.py:104" */
             1'h1:
-                \$next\fsm_state  = 3'h2;
+                \fsm_state$next  = 3'h2;
           endcase
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       3'h2:
+          (* src = "b16_b40.py:109" *)
           casez (valid_in)
+            /* src = "b16_b40.py:109" */
             1'h1:
-                \$next\fsm_state  = 3'h3;
+                \fsm_state$next  = 3'h3;
           endcase
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
+                (* src = "b16_b40.py:121" *)
                 casez (\$53 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
-                  1'hz:
-                      \$next\fsm_state  = 3'h5;
+                      \fsm_state$next  = 3'h4;
+                  /* src = "b16_b40.py:125" */
+                  default:
+                      \fsm_state$next  = 3'h5;
                 endcase
           endcase
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
       3'h5:
+          (* src = "b16_b40.py:136" *)
           casez (\$55 )
+            /* src = "b16_b40.py:136" */
             1'h1:
-                \$next\fsm_state  = 3'h4;
+                \fsm_state$next  = 3'h4;
           endcase
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
       3'h4:
+          (* src = "b16_b40.py:142" *)
           casez (valid_in)
+            /* src = "b16_b40.py:142" */
             1'h1:
-                \$next\fsm_state  = 3'h6;
+                \fsm_state$next  = 3'h6;
           endcase
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
+                (* src = "b16_b40.py:154" *)
                 casez (\$57 )
+                  /* src = "b16_b40.py:154" */
                   1'h1:
-                      \$next\fsm_state  = 3'h1;
-                  1'hz:
-                      \$next\fsm_state  = 3'h0;
+                      \fsm_state$next  = 3'h1;
+                  /* src = "b16_b40.py:157" */
+                  default:
+                      \fsm_state$next  = 3'h0;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1  = buffer1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buffer1$next  = buffer1;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       3'h1:
+          (* src = "b16_b40.py:104" *)
           casez (valid_in)
+            /* src = "b16_b40.py:104" */
             1'h1:
-                \$next\buffer1 [39:24] = data_in;
+                \buffer1$next [39:24] = data_in;
           endcase
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       3'h2:
+          (* src = "b16_b40.py:109" *)
           casez (valid_in)
+            /* src = "b16_b40.py:109" */
             1'h1:
-                \$next\buffer1 [23:8] = data_in;
+                \buffer1$next [23:8] = data_in;
           endcase
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
-                \$next\buffer1 [7:0] = data_in[15:8];
+                \buffer1$next [7:0] = data_in[15:8];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer1  = 40'h0000000000;
+          \buffer1$next  = 40'h0000000000;
     endcase
   end
   always @* begin
-    \$next\buffer2  = buffer2;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \buffer2$next  = buffer2;
+    (* src = "b16_b40.py:94" *)
     casez (fsm_state)
+      /* src = "b16_b40.py:97" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "b16_b40.py:103" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      3'h1:
+          /* empty */;
+      /* src = "b16_b40.py:108" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      3'h2:
+          /* empty */;
+      /* src = "b16_b40.py:113" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       3'h3:
+          (* src = "b16_b40.py:114" *)
           casez (valid_in)
+            /* src = "b16_b40.py:114" */
             1'h1:
+                (* src = "b16_b40.py:121" *)
                 casez (\$59 )
+                  /* src = "b16_b40.py:121" */
                   1'h1:
-                      \$next\buffer2 [39:32] = data_in[7:0];
+                      \buffer2$next [39:32] = data_in[7:0];
                 endcase
           endcase
+      /* src = "b16_b40.py:134" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/5" */
       3'h5:
+          (* src = "b16_b40.py:136" *)
           casez (\$61 )
+            /* src = "b16_b40.py:136" */
             1'h1:
-                \$next\buffer2 [39:32] = \$63 ;
+                \buffer2$next [39:32] = temp_8;
           endcase
+      /* src = "b16_b40.py:141" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/4" */
       3'h4:
+          (* src = "b16_b40.py:142" *)
           casez (valid_in)
+            /* src = "b16_b40.py:142" */
             1'h1:
-                \$next\buffer2 [31:16] = data_in;
+                \buffer2$next [31:16] = data_in;
           endcase
+      /* src = "b16_b40.py:146" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/6" */
       3'h6:
+          (* src = "b16_b40.py:147" *)
           casez (valid_in)
+            /* src = "b16_b40.py:147" */
             1'h1:
-                \$next\buffer2 [15:0] = data_in;
+                \buffer2$next [15:0] = data_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\buffer2  = 40'h0000000000;
+          \buffer2$next  = 40'h0000000000;
     endcase
   end
-  assign data_out = \$next\data_out ;
-  assign is_valid = \$next\is_valid ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.b64_b32" *)
 (* generator = "nMigen" *)
-module b64_b32(data_in, i_busy, full_rst, full_clk, o_busy, data_out, valid_out, valid_in);
+(* \nmigen.hierarchy  = "top.b64_b32" *)
+module b64_b32(o_busy, valid_in, data_out, i_busy, valid_out, full_clk, full_rst, data_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$158  = 0;
+  (* src = "b64_b32_2.py:100" *)
   wire \$1 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$101 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$103 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$105 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$107 ;
+  (* src = "b64_b32_2.py:125" *)
   wire \$109 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$11 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$111 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$113 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$115 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$117 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$119 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$121 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$123 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$125 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$127 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$129 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$13 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$131 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$15 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$17 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$19 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$21 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$23 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$25 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$27 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$29 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$3 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$31 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$33 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$35 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$37 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$39 ;
+  (* src = "b64_b32_2.py:80" *)
   wire \$41 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$43 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$45 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$47 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$49 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$5 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$51 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$53 ;
+  (* src = "b64_b32_2.py:112" *)
   wire \$55 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$57 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$59 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$61 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$63 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$65 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$67 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$69 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$7 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$71 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$73 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$75 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$77 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$79 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$81 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$83 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$85 ;
+  (* src = "b64_b32_2.py:91" *)
   wire \$87 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$89 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$9 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$91 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$93 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$95 ;
+  (* src = "b64_b32_2.py:100" *)
   wire \$97 ;
+  (* src = "b64_b32_2.py:101" *)
   wire \$99 ;
-  (* src = "b64_b32_2.py:42" *)
-  reg [23:0] \$next\data_out ;
-  (* src = "b64_b32_2.py:65" *)
-  reg \$next\half_latched ;
-  (* src = "b64_b32_2.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "b64_b32_2.py:62" *)
-  reg [63:0] \$next\reg ;
-  (* src = "b64_b32_2.py:64" *)
-  reg \$next\reg_tobe_invalid ;
-  (* src = "b64_b32_2.py:63" *)
-  reg \$next\reg_valid ;
-  (* src = "b64_b32_2.py:46" *)
-  reg \$next\valid_out ;
-  (* src = "b64_b32_2.py:68" *)
-  reg \$next\wire_obusy ;
   (* src = "b64_b32_2.py:39" *)
   input [63:0] data_in;
-  (* init = 24'h000000 *)
+  wire [63:0] data_in;
   (* src = "b64_b32_2.py:42" *)
   output [23:0] data_out;
   reg [23:0] data_out = 24'h000000;
+  (* src = "b64_b32_2.py:42" *)
+  reg [23:0] \data_out$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* init = 1'h0 *)
+  wire full_rst;
   (* src = "b64_b32_2.py:65" *)
   reg half_latched = 1'h0;
+  (* src = "b64_b32_2.py:65" *)
+  reg \half_latched$next ;
   (* src = "b64_b32_2.py:49" *)
   input i_busy;
-  (* init = 1'h1 *)
+  wire i_busy;
   (* src = "b64_b32_2.py:48" *)
   output o_busy;
   reg o_busy = 1'h1;
-  (* init = 64'h0000000000000000 *)
+  (* src = "b64_b32_2.py:48" *)
+  reg \o_busy$next ;
   (* src = "b64_b32_2.py:62" *)
   reg [63:0] \reg  = 64'h0000000000000000;
+  (* src = "b64_b32_2.py:62" *)
+  reg [63:0] \reg$next ;
   (* src = "b64_b32_2.py:64" *)
-  wire reg_tobe_invalid;
-  (* init = 1'h0 *)
+  reg reg_tobe_invalid;
   (* src = "b64_b32_2.py:63" *)
   reg reg_valid = 1'h0;
+  (* src = "b64_b32_2.py:63" *)
+  reg \reg_valid$next ;
   (* src = "b64_b32_2.py:45" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "b64_b32_2.py:46" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "b64_b32_2.py:46" *)
+  reg \valid_out$next ;
   (* src = "b64_b32_2.py:68" *)
-  wire wire_obusy;
+  reg wire_obusy;
   assign \$9  = \$5  & (* src = "b64_b32_2.py:100" *) \$7 ;
   assign \$99  = half_latched == (* src = "b64_b32_2.py:101" *) 1'h1;
   assign \$101  = reg_valid == (* src = "b64_b32_2.py:125" *) 1'h0;
@@ -1726,256 +2373,330 @@ module b64_b32(data_in, i_busy, full_rst, full_clk, o_busy, data_out, valid_out,
   assign \$95  = valid_out == (* src = "b64_b32_2.py:100" *) 1'h1;
   assign \$97  = \$93  & (* src = "b64_b32_2.py:100" *) \$95 ;
   always @(posedge full_clk)
-      half_latched <= \$next\half_latched ;
+    half_latched <= \half_latched$next ;
   always @(posedge full_clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge full_clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge full_clk)
-      reg_valid <= \$next\reg_valid ;
+    reg_valid <= \reg_valid$next ;
   always @(posedge full_clk)
-      \reg  <= \$next\reg ;
+    \reg  <= \reg$next ;
   always @(posedge full_clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @* begin
-    \$next\o_busy  = o_busy;
-    \$next\o_busy  = wire_obusy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \o_busy$next  = wire_obusy;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\o_busy  = 1'h1;
+          \o_busy$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\reg_tobe_invalid  = 1'h0;
-    \$next\reg_tobe_invalid  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    reg_tobe_invalid = 1'h0;
+    (* src = "b64_b32_2.py:100" *)
     casez (\$9 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$11 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\reg_tobe_invalid  = 1'h1;
+                reg_tobe_invalid = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\wire_obusy  = 1'h0;
-    \$next\wire_obusy  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    wire_obusy = 1'h1;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$21 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\wire_obusy  = 1'h0;
+          wire_obusy = 1'h0;
     endcase
   end
   always @* begin
-    \$next\reg  = \reg ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \reg$next  = \reg ;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$31 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\reg  = data_in;
+          \reg$next  = data_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\reg  = 64'h0000000000000000;
+          \reg$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\reg_valid  = reg_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \reg_valid$next  = reg_valid;
+    (* src = "b64_b32_2.py:80" *)
     casez (\$41 )
+      /* src = "b64_b32_2.py:80" */
       1'h1:
-          \$next\reg_valid  = 1'h1;
+          \reg_valid$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$51 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$53 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
+                (* src = "b64_b32_2.py:112" *)
                 casez (\$55 )
+                  /* src = "b64_b32_2.py:112" */
                   1'h1:
-                      \$next\reg_valid  = 1'h0;
+                      \reg_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\reg_valid  = 1'h0;
+          \reg_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \data_out$next  = data_out;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$65 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\data_out  = \reg [63:40];
+          \data_out$next  = \reg [63:40];
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$75 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$77 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\data_out  = \reg [39:16];
-            1'hz:
-                \$next\data_out  = \reg [63:40];
+                \data_out$next  = \reg [39:16];
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \data_out$next  = \reg [63:40];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\data_out  = 24'h000000;
+          \data_out$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$87 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\valid_out  = 1'h1;
+          \valid_out$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$97 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$99 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\valid_out  = 1'h1;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
     endcase
+    (* src = "b64_b32_2.py:125" *)
     casez (\$109 )
+      /* src = "b64_b32_2.py:125" */
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\half_latched  = half_latched;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \half_latched$next  = half_latched;
+    (* src = "b64_b32_2.py:91" *)
     casez (\$119 )
+      /* src = "b64_b32_2.py:91" */
       1'h1:
-          \$next\half_latched  = 1'h1;
+          \half_latched$next  = 1'h1;
     endcase
+    (* src = "b64_b32_2.py:100" *)
     casez (\$129 )
+      /* src = "b64_b32_2.py:100" */
       1'h1:
+          (* src = "b64_b32_2.py:101" *)
           casez (\$131 )
+            /* src = "b64_b32_2.py:101" */
             1'h1:
-                \$next\half_latched  = 1'h0;
-            1'hz:
-                \$next\half_latched  = 1'h1;
+                \half_latched$next  = 1'h0;
+            /* src = "b64_b32_2.py:116" */
+            default:
+                \half_latched$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\half_latched  = 1'h0;
+          \half_latched$next  = 1'h0;
     endcase
   end
-  assign wire_obusy = \$next\wire_obusy ;
-  assign reg_tobe_invalid = \$next\reg_tobe_invalid ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
+module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$159  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [29:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [29:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [4:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [5:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [29:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [55:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 30'h00000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [29:0] enc_in;
   reg [29:0] enc_in = 30'h00000000;
-  (* init = 5'h00 *)
+  (* src = "converter.py:66" *)
+  reg [29:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [4:0] enc_in_ctr;
   reg [4:0] enc_in_ctr = 5'h00;
+  (* src = "converter.py:67" *)
+  reg [4:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "converter.py:61" *)
   input [5:0] enc_out_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [5:0] enc_out_ctr_reg = 6'h00;
-  (* init = 30'h00000000 *)
+  (* src = "converter.py:95" *)
+  reg [5:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [29:0] enc_out_latch = 30'h00000000;
-  (* init = 56'h00000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [29:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [55:0] enc_out_reg = 56'h00000000000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [55:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -1996,7 +2717,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[55:30];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[55:30];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 5'h1e;
@@ -2006,715 +2727,894 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[29:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 30'h00000000;
+          \enc_out_latch$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
-          endcase
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
+          endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 56'h00000000000000;
+          \enc_out_reg$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 6'h00;
+          \enc_out_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[29:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 30'h00000000;
+          \enc_in$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[4:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[4:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 5'h1e;
+                      \enc_in_ctr$next  = 5'h1e;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [4:0];
+                            \enc_in_ctr$next  = \$52 [4:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 5'h1e;
+          \enc_in_ctr$next  = 5'h1e;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 5'h00;
+          \enc_in_ctr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
+module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$160  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [29:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [29:0] enc_out;
+  wire [29:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 9'h1fb;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$5  fifo (
+    close_full <= \close_full$next ;
+  \fifo$4  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 36'h000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 30'h00000000;
-    \$next\enc_out  = fifo_dout[29:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = fifo_dout[34:30];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[35];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[35];
+  assign enc_out_ctr = fifo_r_data[34:30];
+  assign enc_out = fifo_r_data[29:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, valid_in);
-  wire [13:0] \$10 ;
-  wire [12:0] \$11 ;
-  wire [13:0] \$13 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
+module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_in, end_in, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$161  = 0;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$12 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$14 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$15 ;
-  wire [12:0] \$16 ;
-  wire [13:0] \$18 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$6 ;
-  wire [12:0] \$8 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$3 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$4 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$5 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "difference.py:98" *)
+  wire [13:0] \$8 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$9 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$11 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$2 ;
+  wire [11:0] \predic_in$2 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:61" *)
   output [12:0] \val_out$3 ;
   reg [12:0] \val_out$3  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$3$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$4 ;
   reg [12:0] \val_out$4  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$4$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$5 ;
   reg [12:0] \val_out$5  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$5$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
-  assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$9  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$12  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$2 ;
+  assign \$15  = \diff$11  - (* src = "difference.py:98" *) 1'h1;
+  assign \$6  = pixel_in - (* src = "difference.py:91" *) predic_in;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$5  <= \$next\val_out$5 ;
+    \val_out$5  <= \val_out$5$next ;
   always @(posedge clk)
-      \val_out$4  <= \$next\val_out$4 ;
+    \val_out$3  <= \val_out$3$next ;
   always @(posedge clk)
-      \val_out$3  <= \$next\val_out$3 ;
+    \val_out$4  <= \val_out$4$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$6 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$6 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$3  = \val_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \val_out$4$next  = \val_out$4 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$3  = \$8 ;
+          \val_out$4$next  = \$9 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$3  = 13'h0000;
+          \val_out$4$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \diff$11  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$11  = \$12 ;
     endcase
   end
   always @* begin
-    \$next\val_out$4  = \val_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \val_out$3$next  = \val_out$3 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$4  = \$10 [12:0];
+          \val_out$3$next  = \diff$11 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$4  = 13'h0000;
+          \val_out$3$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$5  = \val_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \val_out$5$next  = \val_out$5 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$5  = \$15 [12:0];
+          \val_out$5$next  = \$15 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$5  = 13'h0000;
+          \val_out$5$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$10  = \$13 ;
-  assign \$15  = \$18 ;
+  assign \$8  = \$9 ;
+  assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, enc_ctr, \enc_out$3 , \enc_ctr$4 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$4 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$3 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
+module encode(rst, val_in, \val_in$1 , ssss, \ssss$2 , valid_in, end_in, enc_out, \enc_out$3 , enc_ctr, \enc_ctr$4 , valid_out, end_out, clk);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$6 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$25 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$18 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$16 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$7 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$17 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$8 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$14 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$5 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$21 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$4 ;
+  wire [4:0] \enc_ctr$4 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$20 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$3 ;
+  wire [27:0] \enc_out$3 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$15 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$10 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$25 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$6 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$26 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$19 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$18 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$7 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$7 ;
+  wire [4:0] \ssss$2 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$17 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$8 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$14 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$5 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$9 ;
-  \anonymous$2  \$13  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$12 ),
-    .enc_out(\enc_out$11 ),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$10 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$7 ),
-    .val_in(\val_in$8 ),
-    .valid_in(\valid_in$5 ),
-    .valid_out(\valid_out$9 )
-  );
-  \anonymous$3  \$22  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$21 ),
-    .enc_out(\enc_out$20 ),
-    .end_in(\end_in$15 ),
-    .rp_addr(\rp_addr$19 ),
-    .rp_data(\rp_data$18 ),
-    .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$17 ),
-    .valid_in(\valid_in$14 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -2731,511 +3631,466 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, e
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$25 ;
-    _1_ <= \$next\mem_r_addr ;
-  end
-  assign \mem_r_data$26  = mem[_0_];
-  assign mem_r_data = mem[_1_];
-  always @* begin
-    \$next\val_in$8  = 12'h000;
-    \$next\val_in$8  = val_in;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$16  = 5'h00;
-    \$next\ssss$16  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$25  = 4'h0;
-    \$next\mem_r_addr$25  = \rp_addr$19 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$18  = 33'h000000000;
-    \$next\rp_data$18  = \mem_r_data$26 ;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$6 ];
   end
-  always @* begin
-    \$next\enc_out$3  = 28'h0000000;
-    \$next\enc_out$3  = \enc_out$20 ;
-  end
-  always @* begin
-    \$next\enc_ctr$4  = 5'h00;
-    \$next\enc_ctr$4  = \enc_ctr$21 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$9 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$10 ;
-  end
-  always @* begin
-    \$next\valid_in$5  = 1'h0;
-    \$next\valid_in$5  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$11 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$12 ;
-  end
-  always @* begin
-    \$next\val_in$17  = 12'h000;
-    \$next\val_in$17  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$15  = 1'h0;
-    \$next\end_in$15  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$4  = \$next\enc_ctr$4 ;
-  assign \enc_out$3  = \$next\enc_out$3 ;
-  assign \rp_data$18  = \$next\rp_data$18 ;
-  assign \mem_r_addr$25  = \$next\mem_r_addr$25 ;
-  assign \ssss$16  = \$next\ssss$16 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \end_in$15  = \$next\end_in$15 ;
-  assign \val_in$17  = \$next\val_in$17 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \valid_in$5  = \$next\valid_in$5 ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign \val_in$8  = \$next\val_in$8 ;
+  assign mem_r_data = _0_;
+  assign \mem_r_data$7  = _1_;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$4  = \U$$1_enc_ctr ;
+  assign \enc_out$3  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$7 ;
+  assign \mem_r_addr$6  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$2 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$162  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 63'h0000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$5 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
+module \fifo$4 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$163  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$6  unbuffered (
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$5  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 36'h000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_out, data_out_ctr, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
+module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_out, end_out, data_out_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$164  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -3307,449 +4162,673 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_ou
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
 (* generator = "nMigen" *)
-module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, data_out, o_busy, end_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
+module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$165  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -3862,24 +4941,24 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -3890,1061 +4969,1591 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
-              begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
-          endcase
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
+          endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
+module force_end(rst, allowed_cycles, valid_in, fend, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$166  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
+module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$167  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [6:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [6:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [76:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [29:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [4:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [4:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [29:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [6:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 7'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [6:0] buff_consum;
   reg [6:0] buff_consum = 7'h00;
-  (* init = 7'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [6:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [6:0] buff_free = 7'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [6:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 77'h00000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [76:0] buffer;
   reg [76:0] buffer = 77'h00000000000000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [76:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [29:0] enc_in;
-  (* init = 30'h00000000 *)
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [29:0] enc_in_buff = 30'h00000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [29:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [4:0] enc_in_ctr;
-  (* init = 5'h00 *)
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [4:0] enc_in_ctr_buff = 5'h00;
-  (* init = 5'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [4:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [4:0] enc_in_ctr_reg = 5'h00;
-  (* init = 30'h00000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [4:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [29:0] enc_in_reg = 30'h00000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [29:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [6:0] new_buff_consum;
+  reg [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [6:0] new_buff_free;
+  reg [6:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4975,409 +6584,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 5'h00;
+          \enc_in_ctr_reg$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [76:0];
+          \buffer$next  = \$30 [76:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [76:0];
+                      \buffer$next  = \$37 [76:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 77'h00000000000000000000;
+          \buffer$next  = 77'h00000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    new_buff_free = 7'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [6:0];
-      1'hz:
+          new_buff_free = \$46 [6:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [6:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [6:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [6:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    new_buff_consum = 7'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [6:0];
-      1'hz:
+          new_buff_consum = \$59 [6:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [6:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [6:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [6:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 7'h00;
+          \buff_consum$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 7'h4d;
+          \buff_free$next  = 7'h4d;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 7'h00;
+          \buff_free$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 30'h00000000;
+          \enc_in_buff$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 5'h00;
+          \enc_in_ctr_buff$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 30'h00000000;
+          \enc_in_reg$next  = 30'h00000000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -5388,96 +7266,15 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, fend_out, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$5 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$6 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$15 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$14 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$18 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$19 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$10 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$11 ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
+module integration_1(full_clk, rst, full_rst, fend_out, end_of_frame, pixel_in, \pixel_in$1 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -5502,10 +7299,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [55:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [5:0] enc_out_ctr;
+  wire [5:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
@@ -5532,10 +7331,13 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -5544,8 +7346,10 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
@@ -5573,7 +7377,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$12 ;
+  wire [4:0] \normalize_ssss$13 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
@@ -5581,7 +7385,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$13 ;
+  wire [11:0] \normalize_val_out$12 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -5590,10 +7394,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$11 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
@@ -5624,6 +7430,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -5632,10 +7439,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
@@ -5695,11 +7504,11 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .end_out(normalize_end_out),
     .rst(rst),
     .ssss(normalize_ssss),
-    .\ssss$3 (\normalize_ssss$12 ),
+    .\ssss$4 (\normalize_ssss$13 ),
     .val_in(normalize_val_in),
     .\val_in$1 (\normalize_val_in$10 ),
     .val_out(normalize_val_out),
-    .\val_out$4 (\normalize_val_out$13 ),
+    .\val_out$3 (\normalize_val_out$12 ),
     .valid_in(normalize_valid_in),
     .valid_out(normalize_valid_out),
     .vals_in_mns(normalize_vals_in_mns),
@@ -5733,295 +7542,109 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .height(signals_height),
     .new_input(signals_new_input),
     .new_row(signals_new_row),
-    .rst(rst),
-    .width(signals_width)
-  );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$5  = 12'h000;
-    \$next\difference_pixel_in$5  = \predictor_pixel_out$3 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$6  = 12'h000;
-    \$next\difference_predic_in$6  = \predictor_predic_out$4 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$10  = 13'h0000;
-    \$next\normalize_val_in$10  = \difference_val_out$7 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$8 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$11  = 13'h0000;
-    \$next\normalize_vals_in_mns$11  = \difference_val_out$9 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$14  = 12'h000;
-    \$next\encode_val_in$14  = \normalize_val_out$13 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$15  = 5'h00;
-    \$next\encode_ssss$15  = \normalize_ssss$12 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in$18  = 28'h0000000;
-    \$next\merge_enc_in$18  = \encode_enc_out$16 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$19  = 5'h00;
-    \$next\merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$2  = 12'h000;
-    \$next\predictor_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$19  = \$next\merge_enc_in_ctr$19 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$18  = \$next\merge_enc_in$18 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$15  = \$next\encode_ssss$15 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$14  = \$next\encode_val_in$14 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$11  = \$next\normalize_vals_in_mns$11 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$10  = \$next\normalize_val_in$10 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$6  = \$next\difference_predic_in$6 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$5  = \$next\difference_pixel_in$5 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$2  = \$next\predictor_pixel_in$2 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+    .rst(rst),
+    .width(signals_width)
+  );
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$18  = \encode_enc_out$16 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$15  = \normalize_ssss$13 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$14  = \normalize_val_out$12 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$11  = \difference_val_out$9 ;
+  assign normalize_vals_in_mns = \difference_val_out$8 ;
+  assign \normalize_val_in$10  = \difference_val_out$7 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$6  = \predictor_predic_out$4 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$5  = \predictor_pixel_out$3 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$2  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, full_clk, nready, enc_out, enc_out_ctr, valid_out, out_end, fend_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
+module integration_2(full_clk, rst, full_rst, fend_out, pixel_in, \pixel_in$1 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$168  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:61" *)
   wire \$13 ;
+  (* src = "integration_2.py:61" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:62" *)
   wire \$19 ;
+  (* src = "integration_2.py:62" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$3 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$30 ;
+  (* src = "integration_2.py:70" *)
   wire \$32 ;
+  (* src = "integration_2.py:75" *)
   wire \$34 ;
+  (* src = "integration_2.py:75" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:80" *)
   wire \$44 ;
+  (* src = "integration_2.py:80" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:62" *)
   wire \$5 ;
+  (* src = "converter_fifo.py:65" *)
   wire [55:0] \$50 ;
+  (* src = "converter_fifo.py:66" *)
   wire [5:0] \$52 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [55:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [5:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [29:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [4:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [55:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [5:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -6062,34 +7685,40 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [55:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [5:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [55:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [55:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [5:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -6110,69 +7739,80 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$15  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$17  = \$13  | (* src = "integration_2.py:60" *) \$15 ;
-  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$21  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$23  = \$19  & (* src = "integration_2.py:61" *) \$21 ;
-  assign \$25  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$30  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$32  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$36  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$38  = \$34  | (* src = "integration_2.py:74" *) \$36 ;
-  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$40  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$46  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$48  = \$44  & (* src = "integration_2.py:79" *) \$46 ;
+  wire valid_out;
+  assign \$9  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$15  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$17  = \$13  | (* src = "integration_2.py:61" *) \$15 ;
+  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$21  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$23  = \$19  & (* src = "integration_2.py:62" *) \$21 ;
+  assign \$25  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$30  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$32  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$36  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$38  = \$34  | (* src = "integration_2.py:75" *) \$36 ;
+  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$40  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$46  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$48  = \$44  & (* src = "integration_2.py:80" *) \$46 ;
   assign \$50  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$52  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$7  = \$3  & (* src = "integration_2.py:61" *) \$5 ;
+  assign \$5  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$7  = \$3  & (* src = "integration_2.py:62" *) \$5 ;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -6231,248 +7871,150 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$11 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$17 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \nready_end$next  = \$17 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 6'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 56'h00000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 6'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 30'h00000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$27 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 5'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \$50 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \$52 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$29 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \nready_reset_counter$next  = \$30 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$32 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$42 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$2  = 12'h000;
-    \$next\integration_1_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$48 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 56'h00000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
   assign \$29  = \$30 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$2  = \$next\integration_1_pixel_in$2 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$52 ;
+  assign enc_out = \$50 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$48 ;
+  assign \integration_1_pixel_in$2  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$42 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_clk, data_out, valid_out, end_out, nready, fend_out, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [29:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [4:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
+module integration_3(full_clk, rst, full_rst, pixel_in, \pixel_in$1 , valid_in, busy_in, data_out, valid_out, end_out, fend_out, nready, clk);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "integration_3.py:25" *)
+  wire clk;
+  (* src = "integration_3.py:26" *)
   output [15:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [15:0] data_out;
+  (* src = "integration_3.py:31" *)
   output end_out;
-  (* src = "integration_1.py:35" *)
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_2.py:24" *)
-  wire [55:0] integration_2_enc_out;
+  wire full_rst;
   (* src = "integration_2.py:25" *)
-  wire [5:0] integration_2_enc_out_ctr;
+  wire [55:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [5:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -6520,915 +8062,935 @@ module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_c
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$2  = 12'h000;
-    \$next\integration_2_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 30'h00000000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[29:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 5'h00;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[4:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign \integration_2_pixel_in$2  = \$next\integration_2_pixel_in$2 ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[4:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[29:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign \integration_2_pixel_in$2  = \pixel_in$1 ;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$169  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [55:0] enc_in;
+  wire [55:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 9'h1f6;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 63'h0000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = fifo_dout[55:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[61:56];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[62];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[62];
+  assign enc_out_ctr = fifo_r_data[61:56];
+  assign enc_out = fifo_r_data[55:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_out, end_out, data_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.markers" *)
+module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$170  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
   output o_busy;
+  reg o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      counter <= \$next\counter ;
-  always @(posedge clk)
-      end_cond <= \$next\end_cond ;
-  always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
+  always @(posedge clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge clk)
+    counter <= \counter$next ;
+  always @(posedge clk)
+    end_cond <= \end_cond$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.merge" *)
+module merge(rst, enc_in, \enc_in$1 , enc_in_ctr, \enc_in_ctr$2 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:112" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [5:0] \$next\enc_out_ctr ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$4 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$3 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
+  wire [4:0] \enc_in_ctr$2 ;
   (* src = "merge.py:112" *)
   output [55:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$6 ;
+  wire [55:0] enc_out;
   (* src = "merge.py:113" *)
   output [5:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$5 ;
+  wire [5:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$4 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$8 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$3 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$7 ;
-  \anonymous$4  \$9  (
+  wire valid_out;
+  \U$$0$3  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$6 ),
-    .enc_out_ctr(\enc_out_ctr$5 ),
-    .end_in(\end_in$4 ),
-    .end_out(\end_out$8 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$3 ),
-    .valid_out(\valid_out$7 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\valid_in$3  = 1'h0;
-    \$next\valid_in$3  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$4  = 1'h0;
-    \$next\end_in$4  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \enc_out$6 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$5 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$7 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$8 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$4  = \$next\end_in$4 ;
-  assign \valid_in$3  = \$next\valid_in$3 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_out_ctr = \U$$0_enc_out_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$2 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
-(* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , rst, clk, ssss, val_out, \ssss$3 , \val_out$4 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$6 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$3 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$12 ;
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
+module normalize(rst, val_in, \val_in$1 , vals_in_mns, \vals_in_mns$2 , valid_in, end_in, val_out, \val_out$3 , ssss, \ssss$4 , valid_out, end_out, clk);
+  (* src = "normalize.py:132" *)
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$5 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$13 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$4 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$11 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$1_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$9 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$3 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$8 ;
+  output [4:0] \ssss$4 ;
+  wire [4:0] \ssss$4 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$12 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$13 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$4 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$7 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$11 ;
+  output [11:0] \val_out$3 ;
+  wire [11:0] \val_out$3 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$2 ;
-  anonymous \$10  (
+  wire [12:0] \vals_in_mns$2 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$9 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$8 ),
-    .val_in(\val_in$5 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$7 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$17  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$14 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$12 ),
-    .val_in_mns(\val_in_mns$13 ),
-    .val_out(\val_out$15 ),
-    .valid(\valid$11 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  always @* begin
-    \$next\val_in$5  = 13'h0000;
-    \$next\val_in$5  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out$4  = 12'h000;
-    \$next\val_out$4  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$9 ;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$8 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$7 ;
-  end
-  always @* begin
-    \$next\val_in$12  = 13'h0000;
-    \$next\val_in$12  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$11  = 1'h0;
-    \$next\valid$11  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$13  = 13'h0000;
-    \$next\val_in_mns$13  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$4  = \$next\val_out$4 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \val_in_mns$13  = \$next\val_in_mns$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \valid$11  = \$next\valid$11 ;
-  assign \val_in$12  = \$next\val_in$12 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign valid = \$next\valid ;
-  assign \val_in$5  = \$next\val_in$5 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$3  = \U$$1_val_out ;
+  assign \ssss$4  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$2 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
+module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$171  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [3:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [5:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [6:0] buff_consum;
+  wire [6:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [76:0] buffer;
+  wire [76:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 16'h0000 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [15:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [3:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [5:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -7467,148 +9029,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @* begin
-    \$next\shift_right  = 6'h00;
-    \$next\shift_right  = \$1 [5:0];
-  end
-  always @* begin
-    \$next\shift_left  = 4'h0;
-    \$next\shift_left  = \$4 [3:0];
-  end
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [15:0];
+                      \data_out$next  = \$40 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [15:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [15:0];
+                      \data_out$next  = \$52 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7617,143 +9232,143 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [3:0];
+  assign shift_right = \$2 [5:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
+module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$172  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$10 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$12 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$14 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$21 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$22 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$27 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$28 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$4 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$6 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$8 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$24 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$25 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$26 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$30 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$31 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$32 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out$3 ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$24  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$24$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$25  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$25$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$26  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$26$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg buff_ctr = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$30  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$30$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$31  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$31$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$32  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$32$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg lbuff_ctr = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] \pixel_in$1 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] \pixel_out$2 ;
   reg [11:0] \pixel_out$2  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$2$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] \predic_out$3 ;
   reg [11:0] \predic_out$3  = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$10  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$12  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$14  = \$10  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$12 ;
@@ -7765,452 +9380,577 @@ module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \
   assign \$6  = new_row == (* src = "predictor_p1_c4_pix1_2.py:115" *) 1'h1;
   assign \$8  = \$4  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$6 ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \predic_out$3  <= \$next\predic_out$3 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$32  <= \$next\lbuff$32 ;
+    \lbuff$32  <= \lbuff$32$next ;
   always @(posedge clk)
-      \lbuff$31  <= \$next\lbuff$31 ;
+    \lbuff$31  <= \lbuff$31$next ;
   always @(posedge clk)
-      \lbuff$30  <= \$next\lbuff$30 ;
+    \lbuff$30  <= \lbuff$30$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$26  <= \$next\buff$26 ;
+    \buff$26  <= \buff$26$next ;
   always @(posedge clk)
-      \buff$25  <= \$next\buff$25 ;
+    \buff$25  <= \buff$25$next ;
   always @(posedge clk)
-      \buff$24  <= \$next\buff$24 ;
+    \buff$24  <= \buff$24$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      \pixel_out$2  <= \$next\pixel_out$2 ;
+    \pixel_out$2  <= \pixel_out$2$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$14 , \$8  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$16 ;
-  end
-  always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$27 [0];
+                \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 1'h0;
+          \lbuff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$30  = \lbuff$30 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \lbuff$30$next  = \lbuff$30 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff$30  = \pixel_in$1 ;
+                      \lbuff$30$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$30  = 12'h800;
+          \lbuff$30$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$31  = \lbuff$31 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \lbuff$31$next  = \lbuff$31 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$31  = pixel_in;
+                      \lbuff$31$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$31  = 12'h800;
+          \lbuff$31$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$32  = \lbuff$32 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \lbuff$32$next  = \lbuff$32 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$32  = \pixel_in$1 ;
+                      \lbuff$32$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$32  = 12'h800;
+          \lbuff$32$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out  = \lbuff$31 ;
+                      \predic_out$next  = \lbuff$31 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out  = \buff$25 ;
+                      \predic_out$next  = \buff$25 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$3  = \predic_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out$3  = \lbuff$30 ;
+                      \predic_out$3$next  = \lbuff$30 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out$3  = \lbuff$32 ;
+                      \predic_out$3$next  = \lbuff$32 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out$3  = \buff$24 ;
+                      \predic_out$3$next  = \buff$24 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out$3  = \buff$26 ;
+                      \predic_out$3$next  = \buff$26 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$3  = 12'h000;
+          \predic_out$3$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$18 [31:0];
+          \debug_counter$next  = \$19 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$2  = \pixel_out$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \pixel_out$2$next  = \pixel_out$2 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out$2  = \pixel_in$1 ;
+          \pixel_out$2$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$2  = 12'h000;
+          \pixel_out$2$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$21 [0];
+          \buff_ctr$next  = \$22 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 1'h0;
+          \buff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$24  = \buff$24 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \buff$24$next  = \buff$24 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff$24  = \pixel_in$1 ;
+                \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$24  = 12'h800;
+          \buff$24$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$25  = \buff$25 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \buff$25$next  = \buff$25 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$25  = pixel_in;
+                \buff$25$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$25  = 12'h800;
+          \buff$25$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$26  = \buff$26 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$172 ) begin end
+    \buff$26$next  = \buff$26 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$26  = \pixel_in$1 ;
+                \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$26  = 12'h800;
+          \buff$26$next  = 12'h800;
     endcase
   end
   assign \$18  = \$19 ;
   assign \$21  = \$22 ;
   assign \$27  = \$28 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$16 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_clk, width, height, allowed_cycles, full_rst);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.register_file" *)
+module register_file(full_rst, height, width, allowed_cycles, full_clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$173  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$173 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$173 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$173 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
+module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$174  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -8225,124 +9965,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 2'h2;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$174 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$174 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$174 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$174 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$174 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -8351,39 +10160,15 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tdata, s_tready, m_tready);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_tready, m_tdata, s_tvalid, s_tready, s_tdata, full_clk, full_rst, m_tvalid);
+  (* src = "beta_integration_fifo_lvds.py:46" *)
   wire \$1 ;
+  (* src = "beta_integration_fifo_lvds.py:60" *)
   wire \$3 ;
   (* src = "b16_b40.py:35" *)
-  reg [15:0] \$next\b16_b40_data_in ;
-  (* src = "b16_b40.py:45" *)
-  reg \$next\b16_b40_i_busy ;
-  (* src = "b16_b40.py:41" *)
-  reg \$next\b16_b40_valid_in ;
-  (* src = "b64_b32_2.py:39" *)
-  reg [63:0] \$next\b64_b32_data_in ;
-  (* src = "b64_b32_2.py:49" *)
-  reg \$next\b64_b32_i_busy ;
-  (* src = "b64_b32_2.py:45" *)
-  reg \$next\b64_b32_valid_in ;
-  (* src = "beta_integration_fifo_lvds.py:16" *)
-  reg [39:0] \$next\m_tdata ;
-  (* src = "beta_integration_fifo_lvds.py:14" *)
-  reg \$next\m_tvalid ;
-  (* src = "beta_integration_fifo_lvds.py:20" *)
-  reg \$next\s_tready ;
-  (* src = "beta_integration.py:43" *)
-  reg \$next\top_module_busy_in ;
-  (* src = "beta_integration.py:32" *)
-  reg [11:0] \$next\top_module_pixel_in1 ;
-  (* src = "beta_integration.py:33" *)
-  reg [11:0] \$next\top_module_pixel_in2 ;
-  (* src = "beta_integration.py:39" *)
-  reg \$next\top_module_valid_in ;
-  (* src = "b16_b40.py:35" *)
   wire [15:0] b16_b40_data_in;
   (* src = "b16_b40.py:38" *)
   wire [39:0] b16_b40_data_out;
@@ -8409,24 +10194,30 @@ module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tdata, s_tready, m
   wire b64_b32_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "beta_integration_fifo_lvds.py:16" *)
+  wire full_rst;
+  (* src = "beta_integration_fifo_lvds.py:17" *)
   output [39:0] m_tdata;
-  (* src = "beta_integration_fifo_lvds.py:15" *)
+  wire [39:0] m_tdata;
+  (* src = "beta_integration_fifo_lvds.py:16" *)
   input m_tready;
-  (* src = "beta_integration_fifo_lvds.py:14" *)
+  wire m_tready;
+  (* src = "beta_integration_fifo_lvds.py:15" *)
   output m_tvalid;
-  (* src = "beta_integration_fifo_lvds.py:21" *)
+  wire m_tvalid;
+  (* src = "beta_integration_fifo_lvds.py:22" *)
   input [63:0] s_tdata;
-  (* src = "beta_integration_fifo_lvds.py:20" *)
+  wire [63:0] s_tdata;
+  (* src = "beta_integration_fifo_lvds.py:21" *)
   output s_tready;
-  (* src = "beta_integration_fifo_lvds.py:19" *)
+  wire s_tready;
+  (* src = "beta_integration_fifo_lvds.py:20" *)
   input s_tvalid;
+  wire s_tvalid;
   (* src = "beta_integration.py:43" *)
   wire top_module_busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  wire top_module_clk;
   (* src = "beta_integration.py:36" *)
   wire [15:0] top_module_data_out;
   (* src = "beta_integration.py:42" *)
@@ -8435,23 +10226,19 @@ module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tdata, s_tready, m
   wire [11:0] top_module_pixel_in1;
   (* src = "beta_integration.py:33" *)
   wire [11:0] top_module_pixel_in2;
-  (* src = "clk_domains.py:5" *)
-  wire top_module_rst;
   (* src = "beta_integration.py:39" *)
   wire top_module_valid_in;
   (* src = "beta_integration.py:40" *)
   wire top_module_valid_out;
-  assign \$1  = m_tready == (* src = "beta_integration_fifo_lvds.py:45" *) 1'h0;
-  assign \$3  = b64_b32_o_busy == (* src = "beta_integration_fifo_lvds.py:59" *) 1'h0;
+  assign \$1  = m_tready == (* src = "beta_integration_fifo_lvds.py:46" *) 1'h0;
+  assign \$3  = b64_b32_o_busy == (* src = "beta_integration_fifo_lvds.py:60" *) 1'h0;
   b16_b40 b16_b40 (
-    .clk(top_module_clk),
     .data_in(b16_b40_data_in),
     .data_out(b16_b40_data_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
     .i_busy(b16_b40_i_busy),
     .o_busy(b16_b40_o_busy),
-    .rst(top_module_rst),
     .valid_in(b16_b40_valid_in),
     .valid_out(b16_b40_valid_out)
   );
@@ -8465,147 +10252,47 @@ module top(s_tdata, s_tvalid, full_clk, full_rst, m_tvalid, m_tdata, s_tready, m
     .valid_in(b64_b32_valid_in),
     .valid_out(b64_b32_valid_out)
   );
-  top_module top_module (
-    .busy_in(top_module_busy_in),
-    .clk(top_module_clk),
-    .data_out(top_module_data_out),
-    .full_clk(full_clk),
-    .full_rst(full_rst),
-    .nready(top_module_nready),
-    .pixel_in1(top_module_pixel_in1),
-    .pixel_in2(top_module_pixel_in2),
-    .rst(top_module_rst),
-    .valid_in(top_module_valid_in),
-    .valid_out(top_module_valid_out)
-  );
-  always @* begin
-    \$next\m_tdata  = 40'h0000000000;
-    \$next\m_tdata  = b16_b40_data_out;
-  end
-  always @* begin
-    \$next\b16_b40_i_busy  = 1'h0;
-    \$next\b16_b40_i_busy  = \$1 ;
-  end
-  always @* begin
-    \$next\top_module_pixel_in2  = 12'h000;
-    \$next\top_module_pixel_in2  = b64_b32_data_out[11:0];
-  end
-  always @* begin
-    \$next\b64_b32_i_busy  = 1'h0;
-    \$next\b64_b32_i_busy  = top_module_nready;
-  end
-  always @* begin
-    \$next\top_module_valid_in  = 1'h0;
-    \$next\top_module_valid_in  = b64_b32_valid_out;
-  end
-  always @* begin
-    \$next\m_tvalid  = 1'h0;
-    \$next\m_tvalid  = b16_b40_valid_out;
-  end
-  always @* begin
-    \$next\b16_b40_data_in  = 16'h0000;
-    \$next\b16_b40_data_in  = top_module_data_out;
-  end
-  always @* begin
-    \$next\top_module_busy_in  = 1'h0;
-    \$next\top_module_busy_in  = b16_b40_o_busy;
-  end
-  always @* begin
-    \$next\b16_b40_valid_in  = 1'h0;
-    \$next\b16_b40_valid_in  = top_module_valid_out;
-  end
-  always @* begin
-    \$next\b64_b32_data_in  = 64'h0000000000000000;
-    \$next\b64_b32_data_in  = s_tdata;
-  end
-  always @* begin
-    \$next\s_tready  = 1'h0;
-    \$next\s_tready  = \$3 ;
-  end
-  always @* begin
-    \$next\b64_b32_valid_in  = 1'h0;
-    \$next\b64_b32_valid_in  = s_tvalid;
-  end
-  always @* begin
-    \$next\top_module_pixel_in1  = 12'h000;
-    \$next\top_module_pixel_in1  = b64_b32_data_out[23:12];
-  end
-  assign top_module_valid_in = \$next\top_module_valid_in ;
-  assign b64_b32_i_busy = \$next\b64_b32_i_busy ;
-  assign top_module_pixel_in2 = \$next\top_module_pixel_in2 ;
-  assign top_module_pixel_in1 = \$next\top_module_pixel_in1 ;
-  assign b64_b32_valid_in = \$next\b64_b32_valid_in ;
-  assign s_tready = \$next\s_tready ;
-  assign b64_b32_data_in = \$next\b64_b32_data_in ;
-  assign b16_b40_valid_in = \$next\b16_b40_valid_in ;
-  assign top_module_busy_in = \$next\top_module_busy_in ;
-  assign b16_b40_data_in = \$next\b16_b40_data_in ;
-  assign m_tvalid = \$next\m_tvalid ;
-  assign b16_b40_i_busy = \$next\b16_b40_i_busy ;
-  assign m_tdata = \$next\m_tdata ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module" *)
-(* generator = "nMigen" *)
-module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data_out, valid_out, nready, full_clk);
-  wire \$2 ;
-  wire \$4 ;
-  wire \$6 ;
-  wire \$8 ;
-  (* src = "auto_reset.py:34" *)
-  reg \$next\auto_reset_end_in ;
-  (* src = "auto_reset.py:37" *)
-  reg \$next\auto_reset_hs1_in ;
-  (* src = "auto_reset.py:40" *)
-  reg \$next\auto_reset_hs2_in ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\clk ;
-  (* src = "beta_integration.py:36" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "beta_integration.py:41" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:149" *)
-  reg [31:0] \$next\fix_0xff2_data_in ;
-  (* src = "fix_0xff2.py:150" *)
-  reg [2:0] \$next\fix_0xff2_data_in_ctr ;
-  (* src = "fix_0xff2.py:159" *)
-  reg \$next\fix_0xff2_end_in ;
-  (* src = "fix_0xff2.py:163" *)
-  reg \$next\fix_0xff2_i_busy ;
-  (* src = "fix_0xff2.py:156" *)
-  reg \$next\fix_0xff2_valid_in ;
-  (* src = "fix_0xff.py:69" *)
-  reg [15:0] \$next\fix_0xff_data_in ;
-  (* src = "fix_0xff.py:81" *)
-  reg \$next\fix_0xff_end_in ;
-  (* src = "fix_0xff.py:79" *)
-  reg \$next\fix_0xff_i_busy ;
-  (* src = "fix_0xff.py:76" *)
-  reg \$next\fix_0xff_valid_in ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\integration_3_busy_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in$1 ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\integration_3_valid_in ;
-  (* src = "markers.py:35" *)
-  reg [15:0] \$next\markers_data_in ;
-  (* src = "markers.py:44" *)
-  reg \$next\markers_end_in ;
-  (* src = "markers.py:45" *)
-  reg \$next\markers_force_end_in ;
-  (* src = "markers.py:49" *)
-  reg \$next\markers_i_busy ;
-  (* src = "markers.py:41" *)
-  reg \$next\markers_valid_in ;
-  (* src = "beta_integration.py:42" *)
-  reg \$next\nready ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\rst ;
-  (* src = "beta_integration.py:40" *)
-  reg \$next\valid_out ;
+  top_module top_module (
+    .busy_in(top_module_busy_in),
+    .data_out(top_module_data_out),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .nready(top_module_nready),
+    .pixel_in1(top_module_pixel_in1),
+    .pixel_in2(top_module_pixel_in2),
+    .valid_in(top_module_valid_in),
+    .valid_out(top_module_valid_out)
+  );
+  assign top_module_valid_in = b64_b32_valid_out;
+  assign b64_b32_i_busy = top_module_nready;
+  assign top_module_pixel_in2 = b64_b32_data_out[11:0];
+  assign top_module_pixel_in1 = b64_b32_data_out[23:12];
+  assign b64_b32_valid_in = s_tvalid;
+  assign s_tready = \$3 ;
+  assign b64_b32_data_in = s_tdata;
+  assign b16_b40_valid_in = top_module_valid_out;
+  assign top_module_busy_in = b16_b40_o_busy;
+  assign b16_b40_data_in = top_module_data_out;
+  assign m_tvalid = b16_b40_valid_out;
+  assign b16_b40_i_busy = \$1 ;
+  assign m_tdata = b16_b40_data_out;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module" *)
+module top_module(busy_in, valid_out, pixel_in1, pixel_in2, nready, valid_in, full_clk, full_rst, data_out);
+  (* src = "beta_integration.py:131" *)
+  wire \$10 ;
+  (* src = "beta_integration.py:131" *)
+  wire \$12 ;
+  (* src = "beta_integration.py:69" *)
+  wire \$2 ;
+  (* src = "beta_integration.py:69" *)
+  wire \$4 ;
+  (* src = "beta_integration.py:69" *)
+  wire \$6 ;
+  (* src = "beta_integration.py:76" *)
+  wire \$8 ;
   (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
   (* src = "auto_reset.py:37" *)
@@ -8616,10 +10303,10 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
   wire auto_reset_reset_out;
   (* src = "beta_integration.py:43" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  output clk;
+  wire busy_in;
   (* src = "beta_integration.py:36" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "beta_integration.py:41" *)
   wire end_out;
   (* src = "fix_0xff2.py:149" *)
@@ -8660,25 +10347,31 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
   wire fix_0xff_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3.py:32" *)
+  wire full_rst;
+  (* src = "integration_3.py:33" *)
   wire integration_3_busy_in;
-  (* src = "integration_3.py:25" *)
+  (* src = "clk_domains.py:5" *)
+  wire integration_3_clk;
+  (* src = "integration_3.py:26" *)
   wire [15:0] integration_3_data_out;
-  (* src = "integration_3.py:30" *)
+  (* src = "integration_3.py:31" *)
   wire integration_3_end_out;
-  (* src = "integration_1.py:35" *)
+  (* src = "integration_1.py:36" *)
   wire integration_3_fend_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   wire integration_3_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] integration_3_pixel_in;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \integration_3_pixel_in$1 ;
-  (* src = "integration_3.py:28" *)
-  wire integration_3_valid_in;
+  (* src = "clk_domains.py:5" *)
+  wire integration_3_rst;
   (* src = "integration_3.py:29" *)
+  wire integration_3_valid_in;
+  (* src = "integration_3.py:30" *)
   wire integration_3_valid_out;
   (* src = "markers.py:35" *)
   wire [15:0] markers_data_in;
@@ -8700,30 +10393,35 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
   wire markers_valid_out;
   (* src = "beta_integration.py:42" *)
   output nready;
+  wire nready;
   (* src = "beta_integration.py:32" *)
   input [11:0] pixel_in1;
+  wire [11:0] pixel_in1;
   (* src = "beta_integration.py:33" *)
   input [11:0] pixel_in2;
-  (* src = "clk_domains.py:5" *)
-  output rst;
+  wire [11:0] pixel_in2;
   (* src = "beta_integration.py:39" *)
   input valid_in;
+  wire valid_in;
   (* src = "beta_integration.py:40" *)
   output valid_out;
+  wire valid_out;
+  assign \$10  = auto_reset_reset_out == (* src = "beta_integration.py:131" *) 1'h0;
+  assign \$12  = markers_valid_out & (* src = "beta_integration.py:131" *) \$10 ;
   assign \$2  = auto_reset_reset_out == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
   assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
   auto_reset auto_reset (
-    .clk(clk),
+    .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
     .hs1_in(auto_reset_hs1_in),
     .hs2_in(auto_reset_hs2_in),
     .reset_out(auto_reset_reset_out),
-    .rst(rst)
+    .rst(integration_3_rst)
   );
   fix_0xff fix_0xff (
-    .clk(clk),
+    .clk(integration_3_clk),
     .data_in(fix_0xff_data_in),
     .data_out(fix_0xff_data_out),
     .data_out_ctr(fix_0xff_data_out_ctr),
@@ -8731,12 +10429,12 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
     .end_out(fix_0xff_end_out),
     .i_busy(fix_0xff_i_busy),
     .o_busy(fix_0xff_o_busy),
-    .rst(rst),
+    .rst(integration_3_rst),
     .valid_in(fix_0xff_valid_in),
     .valid_out(fix_0xff_valid_out)
   );
   fix_0xff2 fix_0xff2 (
-    .clk(clk),
+    .clk(integration_3_clk),
     .data_in(fix_0xff2_data_in),
     .data_in_ctr(fix_0xff2_data_in_ctr),
     .data_out(fix_0xff2_data_out),
@@ -8744,13 +10442,13 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
     .end_out(fix_0xff2_end_out),
     .i_busy(fix_0xff2_i_busy),
     .o_busy(fix_0xff2_o_busy),
-    .rst(rst),
+    .rst(integration_3_rst),
     .valid_in(fix_0xff2_valid_in),
     .valid_out(fix_0xff2_valid_out)
   );
   integration_3 integration_3 (
     .busy_in(integration_3_busy_in),
-    .clk(clk),
+    .clk(integration_3_clk),
     .data_out(integration_3_data_out),
     .end_out(integration_3_end_out),
     .fend_out(integration_3_fend_out),
@@ -8759,12 +10457,12 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
     .nready(integration_3_nready),
     .pixel_in(integration_3_pixel_in),
     .\pixel_in$1 (\integration_3_pixel_in$1 ),
-    .rst(rst),
+    .rst(integration_3_rst),
     .valid_in(integration_3_valid_in),
     .valid_out(integration_3_valid_out)
   );
   markers markers (
-    .clk(clk),
+    .clk(integration_3_clk),
     .data_in(markers_data_in),
     .data_out(markers_data_out),
     .end_in(markers_end_in),
@@ -8772,285 +10470,142 @@ module top_module(full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, d
     .force_end_in(markers_force_end_in),
     .i_busy(markers_i_busy),
     .o_busy(markers_o_busy),
-    .rst(rst),
+    .rst(integration_3_rst),
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
   );
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
-  always @* begin
-    \$next\rst  = 1'h0;
-    \$next\rst  = \$6 ;
-  end
-  always @* begin
-    \$next\fix_0xff_valid_in  = 1'h0;
-    \$next\fix_0xff_valid_in  = integration_3_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff_end_in  = 1'h0;
-    \$next\fix_0xff_end_in  = integration_3_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff_i_busy  = 1'h0;
-    \$next\fix_0xff_i_busy  = fix_0xff2_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in  = 32'd0;
-    \$next\fix_0xff2_data_in  = fix_0xff_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_valid_in  = 1'h0;
-    \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_end_in  = 1'h0;
-    \$next\fix_0xff2_end_in  = fix_0xff_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = markers_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in_ctr  = 3'h0;
-    \$next\fix_0xff2_data_in_ctr  = fix_0xff_data_out_ctr;
-  end
-  always @* begin
-    \$next\markers_data_in  = 16'h0000;
-    \$next\markers_data_in  = fix_0xff2_data_out;
-  end
-  always @* begin
-    \$next\markers_valid_in  = 1'h0;
-    \$next\markers_valid_in  = fix_0xff2_valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_end_in  = 1'h0;
-    \$next\auto_reset_end_in  = end_out;
-  end
-  always @* begin
-    \$next\markers_force_end_in  = 1'h0;
-    \$next\markers_force_end_in  = integration_3_fend_out;
-  end
-  always @* begin
-    \$next\markers_end_in  = 1'h0;
-    \$next\markers_end_in  = fix_0xff2_end_out;
-  end
-  always @* begin
-    \$next\markers_i_busy  = 1'h0;
-    \$next\markers_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = markers_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = markers_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_3_nready;
-  end
-  always @* begin
-    \$next\auto_reset_hs1_in  = 1'h0;
-    \$next\auto_reset_hs1_in  = valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_hs2_in  = 1'h0;
-    \$next\auto_reset_hs2_in  = \$8 ;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in  = 12'h000;
-    \$next\integration_3_pixel_in  = pixel_in1;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in$1  = 12'h000;
-    \$next\integration_3_pixel_in$1  = pixel_in2;
-  end
-  always @* begin
-    \$next\integration_3_valid_in  = 1'h0;
-    \$next\integration_3_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_3_busy_in  = 1'h0;
-    \$next\integration_3_busy_in  = fix_0xff_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff_data_in  = 16'h0000;
-    \$next\fix_0xff_data_in  = integration_3_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign markers_i_busy = \$next\markers_i_busy ;
-  assign markers_end_in = \$next\markers_end_in ;
-  assign markers_force_end_in = \$next\markers_force_end_in ;
-  assign markers_valid_in = \$next\markers_valid_in ;
-  assign markers_data_in = \$next\markers_data_in ;
-  assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
-  assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
-  assign fix_0xff2_end_in = \$next\fix_0xff2_end_in ;
-  assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
-  assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
-  assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
-  assign fix_0xff_end_in = \$next\fix_0xff_end_in ;
-  assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
-  assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
-  assign integration_3_busy_in = \$next\integration_3_busy_in ;
-  assign integration_3_valid_in = \$next\integration_3_valid_in ;
-  assign \integration_3_pixel_in$1  = \$next\integration_3_pixel_in$1 ;
-  assign integration_3_pixel_in = \$next\integration_3_pixel_in ;
-  assign auto_reset_hs2_in = \$next\auto_reset_hs2_in ;
-  assign auto_reset_hs1_in = \$next\auto_reset_hs1_in ;
-  assign auto_reset_end_in = \$next\auto_reset_end_in ;
-  assign rst = \$next\rst ;
-  assign clk = \$next\clk ;
+  assign nready = integration_3_nready;
+  assign end_out = markers_end_out;
+  assign valid_out = \$12 ;
+  assign data_out = markers_data_out;
+  assign markers_i_busy = busy_in;
+  assign markers_end_in = fix_0xff2_end_out;
+  assign markers_force_end_in = integration_3_fend_out;
+  assign markers_valid_in = fix_0xff2_valid_out;
+  assign markers_data_in = fix_0xff2_data_out;
+  assign fix_0xff2_data_in_ctr = fix_0xff_data_out_ctr;
+  assign fix_0xff2_i_busy = markers_o_busy;
+  assign fix_0xff2_end_in = fix_0xff_end_out;
+  assign fix_0xff2_valid_in = fix_0xff_valid_out;
+  assign fix_0xff2_data_in = fix_0xff_data_out;
+  assign fix_0xff_i_busy = fix_0xff2_o_busy;
+  assign fix_0xff_end_in = integration_3_end_out;
+  assign fix_0xff_valid_in = integration_3_valid_out;
+  assign fix_0xff_data_in = integration_3_data_out;
+  assign integration_3_busy_in = fix_0xff_o_busy;
+  assign integration_3_valid_in = valid_in;
+  assign \integration_3_pixel_in$1  = pixel_in2;
+  assign integration_3_pixel_in = pixel_in1;
+  assign auto_reset_hs2_in = \$8 ;
+  assign auto_reset_hs1_in = valid_out;
+  assign auto_reset_end_in = end_out;
+  assign integration_3_rst = \$6 ;
+  assign integration_3_clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$175  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [62:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [62:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [62:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [62:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [62:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [62:0] storage [510:0];
   initial begin
     storage[0] = 63'h0000000000000000;
@@ -9565,238 +11120,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[509] = 63'h0000000000000000;
     storage[510] = 63'h0000000000000000;
   end
-  reg [62:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [62:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$175 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 63'h0000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$175 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$175 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$5 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$176  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [35:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [35:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [35:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [35:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [35:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [35:0] storage [510:0];
   initial begin
     storage[0] = 36'h000000000;
@@ -10311,145 +11840,133 @@ module \unbuffered$6 (we, replace, re, rst, clk, writable, readable, dout, level
     storage[509] = 36'h000000000;
     storage[510] = 36'h000000000;
   end
-  reg [35:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [35:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$176 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
+    if (\$auto$verilog_backend.cc:2184:dump_module$176 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 36'h000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
-      1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$176 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [29:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [4:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [6:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [76:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
+module vbits_to_cbits(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, clk);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [6:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -10472,6 +11989,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -10492,10 +12010,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -10522,75 +12043,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 30'h00000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 5'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 77'h00000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 7'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 7'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/beta_integration_fullaxi.v b/verilog_src/beta_integration_fullaxi.v
index d0304c1..caf2d08 100644
--- a/verilog_src/beta_integration_fullaxi.v
+++ b/verilog_src/beta_integration_fullaxi.v
@@ -1,274 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.address_gen_read" *)
-(* generator = "nMigen" *)
-module address_gen_read(address_latch, rst, clk, address_o, address_valid, starting_address);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [32:0] \$4 ;
-  wire [32:0] \$5 ;
-  (* src = "address_generator.py:35" *)
-  reg [31:0] \$next\address_o ;
-  (* src = "address_generator.py:36" *)
-  reg \$next\address_valid ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg \$next\fsm_state ;
-  (* src = "address_generator.py:37" *)
-  input address_latch;
-  (* init = 32'd0 *)
-  (* src = "address_generator.py:35" *)
-  output [31:0] address_o;
-  reg [31:0] address_o = 32'd0;
-  (* init = 1'h0 *)
-  (* src = "address_generator.py:36" *)
-  output address_valid;
-  reg address_valid = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 1'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg fsm_state = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "address_generator.py:39" *)
-  input [31:0] starting_address;
-  assign \$2  = address_o + (* src = "address_generator.py:58" *) 8'h80;
-  assign \$5  = address_o + (* src = "address_generator.py:64" *) 8'h80;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      address_valid <= \$next\address_valid ;
-  always @(posedge clk)
-      address_o <= \$next\address_o ;
-  always @* begin
-    \$next\address_o  = address_o;
-    casez (fsm_state)
-      1'h0:
-        begin
-          \$next\address_o  = starting_address;
-          casez (address_latch)
-            1'h1:
-                \$next\address_o  = \$1 [31:0];
-          endcase
-        end
-      1'h1:
-          casez (address_latch)
-            1'h1:
-                \$next\address_o  = \$4 [31:0];
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\address_o  = 32'd0;
-    endcase
-  end
-  always @* begin
-    \$next\address_valid  = address_valid;
-    casez (fsm_state)
-      1'h0:
-          \$next\address_valid  = 1'h1;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\address_valid  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
-    casez (fsm_state)
-      1'h0:
-          casez (address_latch)
-            1'h1:
-                \$next\fsm_state  = 1'h1;
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\fsm_state  = 1'h0;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.address_gen_write" *)
-(* generator = "nMigen" *)
-module address_gen_write(address_latch, rst, clk, address_o, address_valid, starting_address);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [32:0] \$4 ;
-  wire [32:0] \$5 ;
-  (* src = "address_generator.py:35" *)
-  reg [31:0] \$next\address_o ;
-  (* src = "address_generator.py:36" *)
-  reg \$next\address_valid ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg \$next\fsm_state ;
-  (* src = "address_generator.py:37" *)
-  input address_latch;
-  (* init = 32'd0 *)
-  (* src = "address_generator.py:35" *)
-  output [31:0] address_o;
-  reg [31:0] address_o = 32'd0;
-  (* init = 1'h0 *)
-  (* src = "address_generator.py:36" *)
-  output address_valid;
-  reg address_valid = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 1'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg fsm_state = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "address_generator.py:39" *)
-  input [31:0] starting_address;
-  assign \$2  = address_o + (* src = "address_generator.py:58" *) 8'h80;
-  assign \$5  = address_o + (* src = "address_generator.py:64" *) 8'h80;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      address_valid <= \$next\address_valid ;
-  always @(posedge clk)
-      address_o <= \$next\address_o ;
-  always @* begin
-    \$next\address_o  = address_o;
-    casez (fsm_state)
-      1'h0:
-        begin
-          \$next\address_o  = starting_address;
-          casez (address_latch)
-            1'h1:
-                \$next\address_o  = \$1 [31:0];
-          endcase
-        end
-      1'h1:
-          casez (address_latch)
-            1'h1:
-                \$next\address_o  = \$4 [31:0];
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\address_o  = 32'd0;
-    endcase
-  end
-  always @* begin
-    \$next\address_valid  = address_valid;
-    casez (fsm_state)
-      1'h0:
-          \$next\address_valid  = 1'h1;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\address_valid  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
-    casez (fsm_state)
-      1'h0:
-          casez (address_latch)
-            1'h1:
-                \$next\fsm_state  = 1'h1;
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\fsm_state  = 1'h0;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$200  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -306,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$200 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$200 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$200 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$200 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -513,97 +477,445 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
-  wire \$1 ;
-  wire [13:0] \$11 ;
-  wire [13:0] \$12 ;
-  wire [13:0] \$14 ;
-  wire [13:0] \$15 ;
-  wire [13:0] \$17 ;
-  wire [13:0] \$18 ;
-  wire \$20 ;
-  wire \$22 ;
-  wire [13:0] \$24 ;
-  wire [13:0] \$25 ;
-  wire [13:0] \$27 ;
-  wire [13:0] \$28 ;
-  wire \$3 ;
-  wire [13:0] \$30 ;
-  wire [13:0] \$31 ;
-  wire \$33 ;
-  wire \$35 ;
-  wire \$37 ;
-  wire [13:0] \$39 ;
-  wire [13:0] \$40 ;
-  wire [13:0] \$42 ;
-  wire [13:0] \$43 ;
-  wire [13:0] \$45 ;
-  wire [13:0] \$46 ;
-  wire \$48 ;
-  wire \$5 ;
-  wire \$50 ;
-  wire [13:0] \$52 ;
-  wire [13:0] \$53 ;
-  wire [13:0] \$55 ;
-  wire [13:0] \$56 ;
-  wire [13:0] \$58 ;
-  wire [13:0] \$59 ;
-  wire \$61 ;
-  wire \$63 ;
-  wire \$65 ;
-  wire \$67 ;
-  wire \$69 ;
-  wire \$7 ;
-  wire \$71 ;
-  wire \$73 ;
-  wire \$75 ;
-  wire \$77 ;
-  wire \$79 ;
-  wire \$81 ;
-  wire \$83 ;
-  wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$201  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "normalize.py:132" *)
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:133" *)
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
-  (* src = "normalize.py:126" *)
-  output [4:0] ssss;
-  reg [4:0] ssss = 5'h00;
-  (* src = "normalize.py:119" *)
-  input [12:0] val_in;
-  (* src = "normalize.py:121" *)
-  input [12:0] val_in_mns;
-  (* init = 12'h000 *)
-  (* src = "normalize.py:124" *)
-  output [11:0] val_out;
-  reg [11:0] val_out = 12'h000;
-  (* src = "normalize.py:128" *)
-  input valid;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:129" *)
-  reg valid_o = 1'h0;
-  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
-  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
-  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
-  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
-  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
-  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.merge.U$$0" *)
+module \U$$0$4 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$202  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$202 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$202 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$202 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$202 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.normalize.U$$1" *)
+module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$203  = 0;
+  (* src = "normalize.py:156" *)
+  wire \$1 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
+  wire \$20 ;
+  (* src = "normalize.py:65" *)
+  wire \$22 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
+  wire \$3 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
+  wire \$33 ;
+  (* src = "normalize.py:81" *)
+  wire \$35 ;
+  (* src = "normalize.py:65" *)
+  wire \$37 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
+  wire \$48 ;
+  (* src = "normalize.py:81" *)
+  wire \$5 ;
+  (* src = "normalize.py:65" *)
+  wire \$50 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
+  wire \$61 ;
+  (* src = "normalize.py:81" *)
+  wire \$63 ;
+  (* src = "normalize.py:81" *)
+  wire \$65 ;
+  (* src = "normalize.py:81" *)
+  wire \$67 ;
+  (* src = "normalize.py:65" *)
+  wire \$69 ;
+  (* src = "normalize.py:81" *)
+  wire \$7 ;
+  (* src = "normalize.py:81" *)
+  wire \$71 ;
+  (* src = "normalize.py:65" *)
+  wire \$73 ;
+  (* src = "normalize.py:81" *)
+  wire \$75 ;
+  (* src = "normalize.py:81" *)
+  wire \$77 ;
+  (* src = "normalize.py:65" *)
+  wire \$79 ;
+  (* src = "normalize.py:81" *)
+  wire \$81 ;
+  (* src = "normalize.py:65" *)
+  wire \$83 ;
+  (* src = "normalize.py:65" *)
+  wire \$9 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "normalize.py:132" *)
+  input end_in;
+  wire end_in;
+  (* src = "normalize.py:133" *)
+  reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "normalize.py:126" *)
+  output [4:0] ssss;
+  reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
+  (* src = "normalize.py:119" *)
+  input [12:0] val_in;
+  wire [12:0] val_in;
+  (* src = "normalize.py:121" *)
+  input [12:0] val_in_mns;
+  wire [12:0] val_in_mns;
+  (* src = "normalize.py:124" *)
+  output [11:0] val_out;
+  reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
+  (* src = "normalize.py:128" *)
+  input valid;
+  wire valid;
+  (* src = "normalize.py:129" *)
+  reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
+  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
+  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
+  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
+  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
+  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
+  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
   assign \$22  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
   assign \$25  = val_in + (* src = "normalize.py:67" *) 4'hf;
   assign \$28  = val_in + (* src = "normalize.py:72" *) 5'h1f;
@@ -635,197 +947,292 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$203 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$203 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$203 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$203 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -842,629 +1249,656 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$3 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.encode.U$$1" *)
+module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$204  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
-  output end_out;
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
-  output valid_out;
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$4 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.address_gen_read" *)
+module address_gen_read(address_o, address_latch, starting_address, full_rst, full_clk, address_valid);
+  reg \$auto$verilog_backend.cc:2184:dump_module$205  = 0;
+  (* src = "address_generator.py:58" *)
   wire [32:0] \$1 ;
+  (* src = "address_generator.py:58" *)
   wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
+  (* src = "address_generator.py:64" *)
+  wire [32:0] \$4 ;
+  (* src = "address_generator.py:64" *)
+  wire [32:0] \$5 ;
+  (* src = "address_generator.py:37" *)
+  input address_latch;
+  wire address_latch;
+  (* src = "address_generator.py:35" *)
+  output [31:0] address_o;
+  reg [31:0] address_o = 32'd0;
+  (* src = "address_generator.py:35" *)
+  reg [31:0] \address_o$next ;
+  (* src = "address_generator.py:36" *)
+  output address_valid;
+  reg address_valid = 1'h0;
+  (* src = "address_generator.py:36" *)
+  reg \address_valid$next ;
+  (* src = "address_generator.py:50" *)
+  reg fsm_state = 1'h0;
+  (* src = "address_generator.py:50" *)
+  reg \fsm_state$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
+  (* src = "address_generator.py:39" *)
+  input [31:0] starting_address;
+  wire [31:0] starting_address;
+  assign \$2  = address_o + (* src = "address_generator.py:58" *) 8'h80;
+  assign \$5  = address_o + (* src = "address_generator.py:64" *) 8'h80;
+  always @(posedge full_clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge full_clk)
+    address_valid <= \address_valid$next ;
+  always @(posedge full_clk)
+    address_o <= \address_o$next ;
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$205 ) begin end
+    \address_o$next  = address_o;
+    (* src = "address_generator.py:50" *)
+    casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      1'h0:
+        begin
+          \address_o$next  = starting_address;
+          (* src = "address_generator.py:57" *)
+          casez (address_latch)
+            /* src = "address_generator.py:57" */
+            1'h1:
+                \address_o$next  = \$2 [31:0];
+          endcase
+        end
+      /* src = "address_generator.py:61" */
+      /* \nmigen.decoding  = "LOOP/1" */
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          (* src = "address_generator.py:63" *)
+          casez (address_latch)
+            /* src = "address_generator.py:63" */
+            1'h1:
+                \address_o$next  = \$5 [31:0];
+          endcase
     endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \address_o$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$205 ) begin end
+    \address_valid$next  = address_valid;
+    (* src = "address_generator.py:50" *)
+    casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      1'h0:
+          \address_valid$next  = 1'h1;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \address_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$205 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "address_generator.py:50" *)
+    casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      1'h0:
+          (* src = "address_generator.py:57" *)
+          casez (address_latch)
+            /* src = "address_generator.py:57" */
+            1'h1:
+                \fsm_state$next  = 1'h1;
+          endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \fsm_state$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.merge.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$5 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
+(* \nmigen.hierarchy  = "top.address_gen_write" *)
+module address_gen_write(address_o, address_latch, starting_address, full_rst, full_clk, address_valid);
+  reg \$auto$verilog_backend.cc:2184:dump_module$206  = 0;
+  (* src = "address_generator.py:58" *)
+  wire [32:0] \$1 ;
+  (* src = "address_generator.py:58" *)
+  wire [32:0] \$2 ;
+  (* src = "address_generator.py:64" *)
+  wire [32:0] \$4 ;
+  (* src = "address_generator.py:64" *)
+  wire [32:0] \$5 ;
+  (* src = "address_generator.py:37" *)
+  input address_latch;
+  wire address_latch;
+  (* src = "address_generator.py:35" *)
+  output [31:0] address_o;
+  reg [31:0] address_o = 32'd0;
+  (* src = "address_generator.py:35" *)
+  reg [31:0] \address_o$next ;
+  (* src = "address_generator.py:36" *)
+  output address_valid;
+  reg address_valid = 1'h0;
+  (* src = "address_generator.py:36" *)
+  reg \address_valid$next ;
+  (* src = "address_generator.py:50" *)
+  reg fsm_state = 1'h0;
+  (* src = "address_generator.py:50" *)
+  reg \fsm_state$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
+  (* src = "address_generator.py:39" *)
+  input [31:0] starting_address;
+  wire [31:0] starting_address;
+  assign \$2  = address_o + (* src = "address_generator.py:58" *) 8'h80;
+  assign \$5  = address_o + (* src = "address_generator.py:64" *) 8'h80;
+  always @(posedge full_clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge full_clk)
+    address_valid <= \address_valid$next ;
+  always @(posedge full_clk)
+    address_o <= \address_o$next ;
   always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$206 ) begin end
+    \address_o$next  = address_o;
+    (* src = "address_generator.py:50" *)
+    casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      1'h0:
+        begin
+          \address_o$next  = starting_address;
+          (* src = "address_generator.py:57" *)
+          casez (address_latch)
+            /* src = "address_generator.py:57" */
+            1'h1:
+                \address_o$next  = \$2 [31:0];
+          endcase
+        end
+      /* src = "address_generator.py:61" */
+      /* \nmigen.decoding  = "LOOP/1" */
       1'h1:
-          \$next\enc_out  = \$3 [55:0];
+          (* src = "address_generator.py:63" *)
+          casez (address_latch)
+            /* src = "address_generator.py:63" */
+            1'h1:
+                \address_o$next  = \$5 [31:0];
+          endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\enc_out  = 56'h00000000000000;
+          \address_o$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$206 ) begin end
+    \address_valid$next  = address_valid;
+    (* src = "address_generator.py:50" *)
+    casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      1'h0:
+          \address_valid$next  = 1'h1;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \address_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$206 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "address_generator.py:50" *)
+    casez (fsm_state)
+      /* src = "address_generator.py:51" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      1'h0:
+          (* src = "address_generator.py:57" *)
+          casez (address_latch)
+            /* src = "address_generator.py:57" */
+            1'h1:
+                \fsm_state$next  = 1'h1;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \fsm_state$next  = 1'h0;
     endcase
   end
-  assign \$3  = \$6 ;
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.auto_reset" *)
 (* generator = "nMigen" *)
-module auto_reset(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+(* \nmigen.hierarchy  = "top.top.auto_reset" *)
+module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$207  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$207 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.axihp_reader" *)
 (* generator = "nMigen" *)
-module axihp_reader(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_axi_ri__rlast, m_axi_ri__rresp, m_axi_ri__rdata, m_axi_aclk_, rst, clk, m_axi_ro__araddr, m_axi_ro__arvalid, addr_enable, reader_error, data_out, m_axi_ro__rready, data_enable, inactive, m_axi_ro__arid, m_axi_ro__arlen, m_axi_ro__arburst, m_axi_ro__arsize, m_axi_ro__arprot, reader_active, m_axi_ri__arready);
+(* \nmigen.hierarchy  = "top.axihp_reader" *)
+module axihp_reader(inactive, reader_error, reader_active, enable, data_full, addr_in, addr_empty, data_out, data_enable, full_rst, full_clk, m_axi_ri__arready, m_axi_ro__araddr, m_axi_ro__arvalid, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi_ri__rresp, m_axi_ri__rdata, m_axi_ro__rready, m_axi_ro__arid, m_axi_ro__arlen
+, m_axi_ro__arburst, m_axi_ro__arsize, m_axi_ro__arprot, m_axi_aclk_, addr_enable);
+  reg \$auto$verilog_backend.cc:2184:dump_module$208  = 0;
+  (* src = "axihp_reader.py:83" *)
   wire \$1 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$11 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$13 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$15 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$17 ;
+  (* src = "axihp_reader.py:107" *)
   wire \$19 ;
+  (* src = "axihp_reader.py:107" *)
   wire \$21 ;
+  (* src = "axihp_reader.py:107" *)
   wire \$23 ;
+  (* src = "axihp_reader.py:108" *)
   wire \$25 ;
+  (* src = "axihp_reader.py:108" *)
   wire \$27 ;
+  (* src = "axihp_reader.py:108" *)
   wire \$29 ;
+  (* src = "axihp_reader.py:83" *)
   wire \$3 ;
+  (* src = "axihp_reader.py:111" *)
   wire \$31 ;
+  (* src = "axihp_reader.py:113" *)
   wire \$33 ;
+  (* src = "axihp_reader.py:113" *)
   wire \$35 ;
+  (* src = "axihp_reader.py:113" *)
   wire \$37 ;
+  (* src = "axihp_reader.py:122" *)
   wire \$39 ;
+  (* src = "axihp_reader.py:122" *)
   wire \$41 ;
+  (* src = "axihp_reader.py:122" *)
   wire \$43 ;
+  (* src = "axihp_reader.py:134" *)
   wire \$45 ;
+  (* src = "axihp_reader.py:134" *)
   wire \$47 ;
+  (* src = "axihp_reader.py:134" *)
   wire \$49 ;
+  (* src = "axihp_reader.py:83" *)
   wire \$5 ;
-  wire [4:0] \$51 ;
-  wire [4:0] \$52 ;
-  wire [4:0] \$54 ;
-  wire [4:0] \$55 ;
-  wire \$57 ;
+  (* src = "axihp_reader.py:138" *)
+  wire \$51 ;
+  (* src = "axihp_reader.py:138" *)
+  wire \$53 ;
+  (* src = "axihp_reader.py:138" *)
+  wire \$55 ;
+  (* src = "axihp_reader.py:135" *)
+  wire [4:0] \$57 ;
+  (* src = "axihp_reader.py:135" *)
+  wire [4:0] \$58 ;
+  (* src = "axihp_reader.py:139" *)
+  wire [4:0] \$60 ;
+  (* src = "axihp_reader.py:139" *)
+  wire [4:0] \$61 ;
+  (* src = "axihp_reader.py:141" *)
+  wire \$63 ;
+  (* src = "axihp_reader.py:86" *)
   wire \$7 ;
+  (* src = "axihp_reader.py:88" *)
   wire \$9 ;
-  (* src = "axihp_reader.py:69" *)
-  reg [3:0] \$next\active ;
-  (* src = "axihp_reader.py:25" *)
-  reg \$next\addr_clk ;
-  (* src = "axihp_reader.py:75" *)
-  reg \$next\addr_en ;
-  (* src = "axihp_reader.py:26" *)
-  reg \$next\addr_enable ;
-  (* src = "axihp_reader.py:66" *)
-  reg [3:0] \$next\arlen_c ;
-  (* src = "axihp_reader.py:70" *)
-  reg \$next\arvalid ;
-  (* src = "axihp_reader.py:20" *)
-  reg \$next\data_clk ;
-  (* src = "axihp_reader.py:74" *)
-  reg \$next\data_en ;
-  (* src = "axihp_reader.py:21" *)
-  reg \$next\data_enable ;
-  (* src = "axihp_reader.py:22" *)
-  reg [63:0] \$next\data_out ;
-  (* src = "axihp_reader.py:15" *)
-  reg \$next\inactive ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\m_axi_ro__araddr ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_ro__arburst ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [5:0] \$next\m_axi_ro__arid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [3:0] \$next\m_axi_ro__arlen ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [2:0] \$next\m_axi_ro__arprot ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_ro__arsize ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_ro__arvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_ro__rready ;
-  (* src = "axihp_reader.py:31" *)
-  reg [3:0] \$next\reader_active ;
-  (* src = "axihp_reader.py:30" *)
-  reg \$next\reader_error ;
-  (* src = "axihp_reader.py:72" *)
-  reg \$next\rready ;
   (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* init = 4'h0 *)
+  wire \$verilog_initial_trigger ;
   (* src = "axihp_reader.py:69" *)
   reg [3:0] active = 4'h0;
+  (* src = "axihp_reader.py:69" *)
+  reg [3:0] \active$next ;
   (* src = "axihp_reader.py:25" *)
   wire addr_clk;
   (* src = "axihp_reader.py:28" *)
   input addr_empty;
+  wire addr_empty;
   (* src = "axihp_reader.py:75" *)
   wire addr_en;
   (* src = "axihp_reader.py:26" *)
   output addr_enable;
+  wire addr_enable;
   (* src = "axihp_reader.py:27" *)
   input [31:0] addr_in;
+  wire [31:0] addr_in;
   (* src = "axihp_reader.py:66" *)
   wire [3:0] arlen_c;
-  (* init = 1'h0 *)
   (* src = "axihp_reader.py:70" *)
   reg arvalid = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
+  (* src = "axihp_reader.py:70" *)
+  reg \arvalid$next ;
   (* src = "axihp_reader.py:20" *)
   wire data_clk;
   (* src = "axihp_reader.py:74" *)
   wire data_en;
   (* src = "axihp_reader.py:21" *)
   output data_enable;
+  wire data_enable;
   (* src = "axihp_reader.py:23" *)
   input data_full;
+  wire data_full;
   (* src = "axihp_reader.py:22" *)
   output [63:0] data_out;
+  wire [63:0] data_out;
   (* src = "axihp_reader.py:14" *)
   input enable;
+  wire enable;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
   (* src = "axihp_reader.py:15" *)
   output inactive;
+  wire inactive;
   (* src = "axihp_reader.py:12" *)
   input m_axi_aclk_;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_aclk_;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__arready;
+  (* src = "axihp_reader.py:18" *)
   input [63:0] m_axi_ri__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [63:0] m_axi_ri__rdata;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__rlast;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__rlast;
+  (* src = "axihp_reader.py:18" *)
   input [1:0] m_axi_ri__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ri__rresp;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__rvalid;
+  (* src = "axihp_reader.py:17" *)
   output [31:0] m_axi_ro__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_ro__araddr;
+  (* src = "axihp_reader.py:17" *)
   output [1:0] m_axi_ro__arburst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ro__arburst;
+  (* src = "axihp_reader.py:17" *)
   output [5:0] m_axi_ro__arid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_ro__arid;
+  (* src = "axihp_reader.py:17" *)
   output [3:0] m_axi_ro__arlen;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] m_axi_ro__arlen;
+  (* src = "axihp_reader.py:17" *)
   output [2:0] m_axi_ro__arprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_ro__arprot;
+  (* src = "axihp_reader.py:17" *)
   output [1:0] m_axi_ro__arsize;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ro__arsize;
+  (* src = "axihp_reader.py:17" *)
   output m_axi_ro__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ro__arvalid;
+  (* src = "axihp_reader.py:17" *)
   output m_axi_ro__rready;
+  wire m_axi_ro__rready;
   (* src = "axihp_reader.py:31" *)
   output [3:0] reader_active;
+  wire [3:0] reader_active;
   (* src = "axihp_reader.py:30" *)
   output reader_error;
-  (* init = 1'h0 *)
+  wire reader_error;
+  (* src = "axihp_reader.py:71" *)
+  wire rlast;
   (* src = "axihp_reader.py:72" *)
   reg rready = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
+  (* src = "axihp_reader.py:72" *)
+  reg \rready$next ;
   assign \$9  = enable == (* src = "axihp_reader.py:88" *) 1'h1;
   assign \$11  = addr_empty == (* src = "axihp_reader.py:88" *) 1'h0;
   assign \$13  = \$9  & (* src = "axihp_reader.py:88" *) \$11 ;
@@ -1474,846 +1908,815 @@ module axihp_reader(enable, addr_empty, addr_in, m_axi_ri__rvalid, data_full, m_
   assign \$19  = rready == (* src = "axihp_reader.py:107" *) 1'h1;
   assign \$21  = m_axi_ri__rvalid == (* src = "axihp_reader.py:107" *) 1'h1;
   assign \$23  = \$19  & (* src = "axihp_reader.py:107" *) \$21 ;
-  assign \$25  = rready == (* src = "axihp_reader.py:110" *) 1'h0;
-  assign \$27  = data_full == (* src = "axihp_reader.py:112" *) 1'h0;
-  assign \$29  = active != (* src = "axihp_reader.py:112" *) 1'h0;
-  assign \$31  = \$27  & (* src = "axihp_reader.py:112" *) \$29 ;
-  assign \$33  = data_en == (* src = "axihp_reader.py:121" *) 1'h1;
-  assign \$35  = m_axi_ri__rresp != (* src = "axihp_reader.py:121" *) 1'h0;
-  assign \$37  = \$33  & (* src = "axihp_reader.py:121" *) \$35 ;
+  assign \$25  = data_en == (* src = "axihp_reader.py:108" *) 1'h1;
+  assign \$27  = m_axi_ri__rlast == (* src = "axihp_reader.py:108" *) 1'h1;
+  assign \$29  = \$25  & (* src = "axihp_reader.py:108" *) \$27 ;
+  assign \$31  = rready == (* src = "axihp_reader.py:111" *) 1'h0;
+  assign \$33  = data_full == (* src = "axihp_reader.py:113" *) 1'h0;
+  assign \$35  = active != (* src = "axihp_reader.py:113" *) 1'h0;
+  assign \$37  = \$33  & (* src = "axihp_reader.py:113" *) \$35 ;
   assign \$3  = m_axi_ri__arready == (* src = "axihp_reader.py:83" *) 1'h1;
-  assign \$39  = addr_en == (* src = "axihp_reader.py:133" *) 1'h1;
-  assign \$41  = m_axi_ri__rlast == (* src = "axihp_reader.py:133" *) 1'h0;
-  assign \$43  = \$39  & (* src = "axihp_reader.py:133" *) \$41 ;
-  assign \$45  = addr_en == (* src = "axihp_reader.py:137" *) 1'h0;
-  assign \$47  = m_axi_ri__rlast == (* src = "axihp_reader.py:137" *) 1'h1;
-  assign \$49  = \$45  & (* src = "axihp_reader.py:137" *) \$47 ;
-  assign \$52  = active + (* src = "axihp_reader.py:134" *) 1'h1;
-  assign \$55  = active - (* src = "axihp_reader.py:138" *) 1'h1;
-  assign \$57  = active == (* src = "axihp_reader.py:140" *) 1'h0;
+  assign \$39  = data_en == (* src = "axihp_reader.py:122" *) 1'h1;
+  assign \$41  = m_axi_ri__rresp != (* src = "axihp_reader.py:122" *) 1'h0;
+  assign \$43  = \$39  & (* src = "axihp_reader.py:122" *) \$41 ;
+  assign \$45  = addr_en == (* src = "axihp_reader.py:134" *) 1'h1;
+  assign \$47  = rlast == (* src = "axihp_reader.py:134" *) 1'h0;
+  assign \$49  = \$45  & (* src = "axihp_reader.py:134" *) \$47 ;
+  assign \$51  = addr_en == (* src = "axihp_reader.py:138" *) 1'h0;
+  assign \$53  = rlast == (* src = "axihp_reader.py:138" *) 1'h1;
+  assign \$55  = \$51  & (* src = "axihp_reader.py:138" *) \$53 ;
+  assign \$58  = active + (* src = "axihp_reader.py:135" *) 1'h1;
   assign \$5  = \$1  & (* src = "axihp_reader.py:83" *) \$3 ;
+  assign \$61  = active - (* src = "axihp_reader.py:139" *) 1'h1;
+  assign \$63  = active == (* src = "axihp_reader.py:141" *) 1'h0;
   assign \$7  = arvalid == (* src = "axihp_reader.py:86" *) 1'h0;
-  always @(posedge clk)
-      active <= \$next\active ;
-  always @(posedge clk)
-      rready <= \$next\rready ;
-  always @(posedge clk)
-      arvalid <= \$next\arvalid ;
-  always @* begin
-    \$next\arlen_c  = 4'h0;
-    \$next\arlen_c  = 4'hf;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\addr_en  = 1'h0;
-    \$next\addr_en  = \$5 ;
-  end
-  always @* begin
-    \$next\m_axi_ro__rready  = 1'h0;
-    \$next\m_axi_ro__rready  = rready;
-  end
-  always @* begin
-    \$next\data_enable  = 1'h0;
-    \$next\data_enable  = data_en;
-  end
-  always @* begin
-    \$next\active  = active;
-    casez ({ \$49 , \$43  })
-      2'bz1:
-          \$next\active  = \$51 [3:0];
-      2'b1z:
-          \$next\active  = \$54 [3:0];
-    endcase
-    casez (rst)
+  always @(posedge full_clk)
+    active <= \active$next ;
+  always @(posedge full_clk)
+    rready <= \rready$next ;
+  always @(posedge full_clk)
+    arvalid <= \arvalid$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$208 ) begin end
+    \active$next  = active;
+    (* src = "axihp_reader.py:134" *)
+    casez ({ \$55 , \$49  })
+      /* src = "axihp_reader.py:134" */
+      2'b?1:
+          \active$next  = \$58 [3:0];
+      /* src = "axihp_reader.py:138" */
+      2'b1?:
+          \active$next  = \$61 [3:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\active  = 4'h0;
+          \active$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\inactive  = 1'h0;
-    \$next\inactive  = \$57 ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arid  = 6'h00;
-    \$next\m_axi_ro__arid  = 6'h00;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arlen  = 4'h0;
-    \$next\m_axi_ro__arlen  = arlen_c;
-  end
-  always @* begin
-    \$next\m_axi_ro__arburst  = 2'h0;
-    \$next\m_axi_ro__arburst  = 2'h1;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arsize  = 2'h0;
-    \$next\m_axi_ro__arsize  = 2'h3;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_ro__arprot  = 3'h0;
-    \$next\m_axi_ro__arprot  = 3'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\data_clk  = 1'h0;
-    \$next\data_clk  = m_axi_aclk_;
-  end
-  always @* begin
-    \$next\arvalid  = arvalid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$208 ) begin end
+    \arvalid$next  = arvalid;
+    (* src = "axihp_reader.py:86" *)
     casez (\$7 )
+      /* src = "axihp_reader.py:86" */
       1'h1:
+          (* src = "axihp_reader.py:88" *)
           casez (\$17 )
+            /* src = "axihp_reader.py:88" */
             1'h1:
-                \$next\arvalid  = 1'h1;
+                \arvalid$next  = 1'h1;
           endcase
     endcase
+    (* src = "axihp_reader.py:92" *)
     casez (arvalid)
+      /* src = "axihp_reader.py:92" */
       1'h1:
+          (* src = "axihp_reader.py:93" *)
           casez (m_axi_ri__arready)
+            /* src = "axihp_reader.py:93" */
             1'h1:
-                \$next\arvalid  = 1'h0;
+                \arvalid$next  = 1'h0;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\arvalid  = 1'h0;
+          \arvalid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\addr_clk  = 1'h0;
-    \$next\addr_clk  = m_axi_aclk_;
-  end
-  always @* begin
-    \$next\reader_active  = 4'h0;
-    \$next\reader_active  = active;
-  end
-  always @* begin
-    \$next\m_axi_ro__araddr  = 32'd0;
-    \$next\m_axi_ro__araddr  = addr_in;
-  end
-  always @* begin
-    \$next\m_axi_ro__arvalid  = 1'h0;
-    \$next\m_axi_ro__arvalid  = arvalid;
-  end
-  always @* begin
-    \$next\addr_enable  = 1'h0;
-    \$next\addr_enable  = addr_en;
-  end
-  always @* begin
-    \$next\data_en  = 1'h0;
-    \$next\data_en  = \$23 ;
-  end
-  always @* begin
-    \$next\rready  = rready;
-    casez (\$25 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$208 ) begin end
+    \rready$next  = rready;
+    (* src = "axihp_reader.py:111" *)
+    casez (\$31 )
+      /* src = "axihp_reader.py:111" */
       1'h1:
-          casez (\$31 )
+          (* src = "axihp_reader.py:113" *)
+          casez (\$37 )
+            /* src = "axihp_reader.py:113" */
             1'h1:
-                \$next\rready  = 1'h1;
+                \rready$next  = 1'h1;
           endcase
-      1'hz:
-          casez (m_axi_ri__rlast)
+      /* src = "axihp_reader.py:117" */
+      default:
+          (* src = "axihp_reader.py:118" *)
+          casez (rlast)
+            /* src = "axihp_reader.py:118" */
             1'h1:
-                \$next\rready  = 1'h0;
+                \rready$next  = 1'h0;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\rready  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\reader_error  = 1'h0;
-    \$next\reader_error  = \$37 ;
-  end
-  always @* begin
-    \$next\data_out  = 64'h0000000000000000;
-    \$next\data_out  = m_axi_ri__rdata;
-  end
-  assign \$51  = \$52 ;
-  assign \$54  = \$55 ;
-  assign reader_active = \$next\reader_active ;
-  assign addr_clk = \$next\addr_clk ;
-  assign data_clk = \$next\data_clk ;
-  assign m_axi_ro__arprot = \$next\m_axi_ro__arprot ;
-  assign m_axi_ro__arsize = \$next\m_axi_ro__arsize ;
-  assign m_axi_ro__arburst = \$next\m_axi_ro__arburst ;
-  assign m_axi_ro__arlen = \$next\m_axi_ro__arlen ;
-  assign m_axi_ro__arid = \$next\m_axi_ro__arid ;
-  assign inactive = \$next\inactive ;
-  assign data_enable = \$next\data_enable ;
-  assign m_axi_ro__rready = \$next\m_axi_ro__rready ;
-  assign data_out = \$next\data_out ;
-  assign reader_error = \$next\reader_error ;
-  assign data_en = \$next\data_en ;
-  assign addr_enable = \$next\addr_enable ;
-  assign m_axi_ro__arvalid = \$next\m_axi_ro__arvalid ;
-  assign m_axi_ro__araddr = \$next\m_axi_ro__araddr ;
-  assign addr_en = \$next\addr_en ;
-  assign arlen_c = \$next\arlen_c ;
+          \rready$next  = 1'h0;
+    endcase
+  end
+  assign \$57  = \$58 ;
+  assign \$60  = \$61 ;
+  assign reader_active = active;
+  assign addr_clk = m_axi_aclk_;
+  assign data_clk = m_axi_aclk_;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arprot = 3'h0;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arsize = 2'h3;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arburst = 2'h1;
+  assign m_axi_ro__arlen = arlen_c;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_ro__arid = 6'h00;
+  assign inactive = \$63 ;
+  assign data_enable = data_en;
+  assign m_axi_ro__rready = rready;
+  assign data_out = m_axi_ri__rdata;
+  assign reader_error = \$43 ;
+  assign rlast = \$29 ;
+  assign data_en = \$23 ;
+  assign addr_enable = addr_en;
+  assign m_axi_ro__arvalid = arvalid;
+  assign m_axi_ro__araddr = addr_in;
+  assign addr_en = \$5 ;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign arlen_c = 4'hf;
 endmodule
 
-(* \nmigen.hierarchy  = "top.axihp_writer" *)
 (* generator = "nMigen" *)
-module axihp_writer(enable, addr_empty, addr_in, m_axi_wi__wready, data_empty, data_in, m_axi_wi__bvalid, m_axi_wi__bresp, write_strobe, m_axi_aclk, rst, clk, m_axi_wo__awaddr, m_axi_wo__awvalid, addr_enable, m_axi_wo__wdata, m_axi_wo__wvalid, m_axi_wo__wlast, data_enable, m_axi_wo__bready, writer_error, inactive, m_axi_wo__awid, m_axi_wo__wid, m_axi_wo__awlen, m_axi_wo__awburst, m_axi_wo__awsize, m_axi_wo__wstrb, m_axi_wo__awprot, writer_active, writer_unconf, m_axi_wi__awready);
+(* \nmigen.hierarchy  = "top.axihp_writer" *)
+module axihp_writer(data_enable, inactive, writer_error, writer_active, writer_unconf, enable, data_in, data_empty, write_strobe, addr_in, addr_empty, full_rst, full_clk, m_axi_wi__awready, m_axi_wo__awaddr, m_axi_wo__awvalid, m_axi_wi__wready, m_axi_wo__wdata, m_axi_wo__wvalid, m_axi_wo__wlast, m_axi_wi__bvalid
+, m_axi_wo__bready, m_axi_wi__bresp, m_axi_wo__awid, m_axi_wo__wid, m_axi_wo__awlen, m_axi_wo__awburst, m_axi_wo__awsize, m_axi_wo__wstrb, m_axi_wo__awprot, m_axi_aclk, addr_enable);
+  reg \$auto$verilog_backend.cc:2184:dump_module$209  = 0;
+  (* src = "axihp_writer.py:96" *)
   wire \$1 ;
+  (* src = "axihp_writer.py:192" *)
+  wire \$100 ;
+  (* src = "axihp_writer.py:192" *)
+  wire \$102 ;
+  (* src = "axihp_writer.py:190" *)
+  wire [4:0] \$104 ;
+  (* src = "axihp_writer.py:190" *)
+  wire [4:0] \$105 ;
+  (* src = "axihp_writer.py:194" *)
+  wire [4:0] \$107 ;
+  (* src = "axihp_writer.py:194" *)
+  wire [4:0] \$108 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$11 ;
+  (* src = "axihp_writer.py:196" *)
+  wire \$110 ;
+  (* src = "axihp_writer.py:196" *)
+  wire \$112 ;
+  (* src = "axihp_writer.py:196" *)
+  wire \$114 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$13 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$15 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$17 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$19 ;
-  wire [4:0] \$21 ;
-  wire [4:0] \$22 ;
-  wire \$24 ;
+  (* src = "axihp_writer.py:101" *)
+  wire \$21 ;
+  (* src = "axihp_writer.py:126" *)
+  wire [4:0] \$23 ;
+  (* src = "axihp_writer.py:126" *)
+  wire [4:0] \$24 ;
+  (* src = "axihp_writer.py:128" *)
   wire \$26 ;
+  (* src = "axihp_writer.py:130" *)
   wire \$28 ;
+  (* src = "axihp_writer.py:96" *)
   wire \$3 ;
+  (* src = "axihp_writer.py:130" *)
   wire \$30 ;
+  (* src = "axihp_writer.py:130" *)
   wire \$32 ;
+  (* src = "axihp_writer.py:133" *)
   wire \$34 ;
+  (* src = "axihp_writer.py:135" *)
   wire \$36 ;
+  (* src = "axihp_writer.py:135" *)
   wire \$38 ;
+  (* src = "axihp_writer.py:135" *)
   wire \$40 ;
+  (* src = "axihp_writer.py:140" *)
   wire \$42 ;
+  (* src = "axihp_writer.py:140" *)
   wire \$44 ;
+  (* src = "axihp_writer.py:140" *)
   wire \$46 ;
+  (* src = "axihp_writer.py:155" *)
   wire \$48 ;
+  (* src = "axihp_writer.py:96" *)
   wire \$5 ;
+  (* src = "axihp_writer.py:155" *)
   wire \$50 ;
+  (* src = "axihp_writer.py:155" *)
   wire \$52 ;
+  (* src = "axihp_writer.py:158" *)
   wire \$54 ;
+  (* src = "axihp_writer.py:160" *)
   wire \$56 ;
+  (* src = "axihp_writer.py:160" *)
   wire \$58 ;
+  (* src = "axihp_writer.py:160" *)
   wire \$60 ;
+  (* src = "axihp_writer.py:165" *)
   wire \$62 ;
+  (* src = "axihp_writer.py:170" *)
   wire \$64 ;
+  (* src = "axihp_writer.py:170" *)
   wire \$66 ;
-  wire [4:0] \$68 ;
-  wire [4:0] \$69 ;
+  (* src = "axihp_writer.py:170" *)
+  wire \$68 ;
+  (* src = "axihp_writer.py:99" *)
   wire \$7 ;
-  wire [4:0] \$71 ;
-  wire [4:0] \$72 ;
+  (* src = "axihp_writer.py:179" *)
+  wire \$70 ;
+  (* src = "axihp_writer.py:179" *)
+  wire \$72 ;
+  (* src = "axihp_writer.py:179" *)
   wire \$74 ;
+  (* src = "axihp_writer.py:179" *)
   wire \$76 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$78 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$80 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$82 ;
+  (* src = "axihp_writer.py:183" *)
   wire \$84 ;
+  (* src = "axihp_writer.py:181" *)
   wire [4:0] \$86 ;
+  (* src = "axihp_writer.py:181" *)
   wire [4:0] \$87 ;
+  (* src = "axihp_writer.py:185" *)
   wire [4:0] \$89 ;
+  (* src = "axihp_writer.py:101" *)
   wire \$9 ;
+  (* src = "axihp_writer.py:185" *)
   wire [4:0] \$90 ;
+  (* src = "axihp_writer.py:188" *)
   wire \$92 ;
+  (* src = "axihp_writer.py:188" *)
   wire \$94 ;
+  (* src = "axihp_writer.py:188" *)
   wire \$96 ;
-  (* src = "axihp_writer.py:79" *)
-  reg [3:0] \$next\active ;
-  (* src = "axihp_writer.py:20" *)
-  reg \$next\addr_clk ;
-  (* src = "axihp_writer.py:88" *)
-  reg \$next\addr_en ;
-  (* src = "axihp_writer.py:21" *)
-  reg \$next\addr_enable ;
-  (* src = "axihp_writer.py:76" *)
-  reg [3:0] \$next\awlen_c ;
-  (* src = "axihp_writer.py:82" *)
-  reg \$next\awvalid ;
-  (* src = "axihp_writer.py:85" *)
-  reg \$next\bready ;
-  (* src = "axihp_writer.py:121" *)
-  reg [3:0] \$next\counter ;
-  (* src = "axihp_writer.py:25" *)
-  reg \$next\data_clk ;
-  (* src = "axihp_writer.py:87" *)
-  reg \$next\data_en ;
-  (* src = "axihp_writer.py:26" *)
-  reg \$next\data_enable ;
-  (* src = "axihp_writer.py:15" *)
-  reg \$next\inactive ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\m_axi_wo__awaddr ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_wo__awburst ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [5:0] \$next\m_axi_wo__awid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [3:0] \$next\m_axi_wo__awlen ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [2:0] \$next\m_axi_wo__awprot ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\m_axi_wo__awsize ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__awvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__bready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [63:0] \$next\m_axi_wo__wdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [5:0] \$next\m_axi_wo__wid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__wlast ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [7:0] \$next\m_axi_wo__wstrb ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\m_axi_wo__wvalid ;
-  (* src = "axihp_writer.py:89" *)
-  reg \$next\resp_en ;
-  (* src = "axihp_writer.py:80" *)
-  reg [3:0] \$next\unconf ;
-  (* src = "axihp_writer.py:84" *)
-  reg \$next\wlast ;
-  (* src = "axihp_writer.py:33" *)
-  reg [3:0] \$next\writer_active ;
-  (* src = "axihp_writer.py:32" *)
-  reg \$next\writer_error ;
-  (* src = "axihp_writer.py:34" *)
-  reg [3:0] \$next\writer_unconf ;
-  (* src = "axihp_writer.py:83" *)
-  reg \$next\wvalid ;
+  (* src = "axihp_writer.py:192" *)
+  wire \$98 ;
   (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* init = 4'h0 *)
+  wire \$verilog_initial_trigger ;
   (* src = "axihp_writer.py:79" *)
   reg [3:0] active = 4'h0;
+  (* src = "axihp_writer.py:79" *)
+  reg [3:0] \active$next ;
   (* src = "axihp_writer.py:20" *)
   wire addr_clk;
   (* src = "axihp_writer.py:23" *)
   input addr_empty;
+  wire addr_empty;
   (* src = "axihp_writer.py:88" *)
   wire addr_en;
   (* src = "axihp_writer.py:21" *)
   output addr_enable;
+  wire addr_enable;
   (* src = "axihp_writer.py:22" *)
   input [31:0] addr_in;
+  wire [31:0] addr_in;
   (* src = "axihp_writer.py:76" *)
   wire [3:0] awlen_c;
-  (* init = 1'h0 *)
   (* src = "axihp_writer.py:82" *)
   reg awvalid = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "axihp_writer.py:82" *)
+  reg \awvalid$next ;
   (* src = "axihp_writer.py:85" *)
   reg bready = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 4'h0 *)
+  (* src = "axihp_writer.py:85" *)
+  reg \bready$next ;
   (* src = "axihp_writer.py:121" *)
   reg [3:0] counter = 4'h0;
+  (* src = "axihp_writer.py:121" *)
+  reg [3:0] \counter$next ;
   (* src = "axihp_writer.py:25" *)
   wire data_clk;
   (* src = "axihp_writer.py:28" *)
   input data_empty;
+  wire data_empty;
   (* src = "axihp_writer.py:87" *)
   wire data_en;
   (* src = "axihp_writer.py:26" *)
   output data_enable;
+  wire data_enable;
   (* src = "axihp_writer.py:27" *)
   input [63:0] data_in;
+  wire [63:0] data_in;
   (* src = "axihp_writer.py:14" *)
   input enable;
+  wire enable;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
   (* src = "axihp_writer.py:15" *)
   output inactive;
+  wire inactive;
   (* src = "axihp_writer.py:12" *)
   input m_axi_aclk;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_aclk;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__awready;
+  (* src = "axihp_writer.py:18" *)
   input [1:0] m_axi_wi__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wi__bresp;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__bvalid;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__wready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__wready;
+  (* src = "axihp_writer.py:17" *)
   output [31:0] m_axi_wo__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_wo__awaddr;
+  (* src = "axihp_writer.py:17" *)
   output [1:0] m_axi_wo__awburst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wo__awburst;
+  (* src = "axihp_writer.py:17" *)
   output [5:0] m_axi_wo__awid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_wo__awid;
+  (* src = "axihp_writer.py:17" *)
   output [3:0] m_axi_wo__awlen;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] m_axi_wo__awlen;
+  (* src = "axihp_writer.py:17" *)
   output [2:0] m_axi_wo__awprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_wo__awprot;
+  (* src = "axihp_writer.py:17" *)
   output [1:0] m_axi_wo__awsize;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wo__awsize;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__awvalid;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__bready;
+  (* src = "axihp_writer.py:17" *)
   output [63:0] m_axi_wo__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [63:0] m_axi_wo__wdata;
+  (* src = "axihp_writer.py:17" *)
   output [5:0] m_axi_wo__wid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_wo__wid;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__wlast;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__wlast;
+  (* src = "axihp_writer.py:17" *)
   output [7:0] m_axi_wo__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [7:0] m_axi_wo__wstrb;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__wvalid;
+  wire m_axi_wo__wvalid;
   (* src = "axihp_writer.py:89" *)
   wire resp_en;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* init = 4'h0 *)
   (* src = "axihp_writer.py:80" *)
   reg [3:0] unconf = 4'h0;
-  (* init = 1'h0 *)
+  (* src = "axihp_writer.py:80" *)
+  reg [3:0] \unconf$next ;
   (* src = "axihp_writer.py:84" *)
-  reg wlast = 1'h0;
+  wire wlast;
   (* src = "axihp_writer.py:30" *)
   input [7:0] write_strobe;
+  wire [7:0] write_strobe;
   (* src = "axihp_writer.py:33" *)
   output [3:0] writer_active;
+  wire [3:0] writer_active;
   (* src = "axihp_writer.py:32" *)
   output writer_error;
+  wire writer_error;
   (* src = "axihp_writer.py:34" *)
   output [3:0] writer_unconf;
-  (* init = 1'h0 *)
+  wire [3:0] writer_unconf;
   (* src = "axihp_writer.py:83" *)
   reg wvalid = 1'h0;
+  (* src = "axihp_writer.py:83" *)
+  reg \wvalid$next ;
   assign \$9  = enable == (* src = "axihp_writer.py:101" *) 1'h1;
+  assign \$100  = resp_en == (* src = "axihp_writer.py:192" *) 1'h1;
+  assign \$102  = \$98  & (* src = "axihp_writer.py:192" *) \$100 ;
+  assign \$105  = unconf + (* src = "axihp_writer.py:190" *) 1'h1;
+  assign \$108  = unconf - (* src = "axihp_writer.py:194" *) 1'h1;
+  assign \$110  = active == (* src = "axihp_writer.py:196" *) 1'h0;
+  assign \$112  = unconf == (* src = "axihp_writer.py:196" *) 1'h0;
+  assign \$114  = \$110  & (* src = "axihp_writer.py:196" *) \$112 ;
   assign \$11  = addr_empty == (* src = "axihp_writer.py:101" *) 1'h0;
   assign \$13  = \$9  & (* src = "axihp_writer.py:101" *) \$11 ;
   assign \$15  = active[3] == (* src = "axihp_writer.py:101" *) 1'h0;
   assign \$17  = \$13  & (* src = "axihp_writer.py:101" *) \$15 ;
   assign \$1  = awvalid == (* src = "axihp_writer.py:96" *) 1'h1;
-  assign \$19  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
-  assign \$22  = counter + (* src = "axihp_writer.py:131" *) 1'h1;
-  assign \$24  = counter == (* src = "axihp_writer.py:123" *) 4'hf;
-  assign \$26  = wvalid == (* src = "axihp_writer.py:134" *) 1'h1;
-  assign \$28  = m_axi_wi__wready == (* src = "axihp_writer.py:134" *) 1'h1;
-  assign \$30  = \$26  & (* src = "axihp_writer.py:134" *) \$28 ;
-  assign \$32  = wvalid == (* src = "axihp_writer.py:137" *) 1'h0;
-  assign \$34  = data_empty == (* src = "axihp_writer.py:139" *) 1'h0;
-  assign \$36  = active != (* src = "axihp_writer.py:139" *) 1'h0;
-  assign \$38  = \$34  & (* src = "axihp_writer.py:139" *) \$36 ;
+  assign \$19  = unconf != (* src = "axihp_writer.py:101" *) 4'hf;
+  assign \$21  = \$17  & (* src = "axihp_writer.py:101" *) \$19 ;
+  assign \$24  = counter + (* src = "axihp_writer.py:126" *) 1'h1;
+  assign \$26  = counter == (* src = "axihp_writer.py:128" *) 4'hf;
+  assign \$28  = wvalid == (* src = "axihp_writer.py:130" *) 1'h1;
+  assign \$30  = m_axi_wi__wready == (* src = "axihp_writer.py:130" *) 1'h1;
+  assign \$32  = \$28  & (* src = "axihp_writer.py:130" *) \$30 ;
+  assign \$34  = wvalid == (* src = "axihp_writer.py:133" *) 1'h0;
+  assign \$36  = data_empty == (* src = "axihp_writer.py:135" *) 1'h0;
+  assign \$38  = active != (* src = "axihp_writer.py:135" *) 1'h0;
   assign \$3  = m_axi_wi__awready == (* src = "axihp_writer.py:96" *) 1'h1;
-  assign \$40  = bready == (* src = "axihp_writer.py:159" *) 1'h1;
-  assign \$42  = m_axi_wi__bvalid == (* src = "axihp_writer.py:159" *) 1'h1;
-  assign \$44  = \$40  & (* src = "axihp_writer.py:159" *) \$42 ;
-  assign \$46  = bready == (* src = "axihp_writer.py:162" *) 1'h0;
-  assign \$48  = unconf == (* src = "axihp_writer.py:169" *) 1'h0;
-  assign \$50  = resp_en == (* src = "axihp_writer.py:174" *) 1'h1;
-  assign \$52  = m_axi_wi__bresp != (* src = "axihp_writer.py:174" *) 1'h0;
-  assign \$54  = \$50  & (* src = "axihp_writer.py:174" *) \$52 ;
-  assign \$56  = addr_en == (* src = "axihp_writer.py:183" *) 1'h1;
-  assign \$58  = wlast == (* src = "axihp_writer.py:183" *) 1'h0;
+  assign \$40  = \$36  & (* src = "axihp_writer.py:135" *) \$38 ;
+  assign \$42  = data_en == (* src = "axihp_writer.py:140" *) 1'h1;
+  assign \$44  = wlast == (* src = "axihp_writer.py:140" *) 1'h1;
+  assign \$46  = \$42  & (* src = "axihp_writer.py:140" *) \$44 ;
+  assign \$48  = bready == (* src = "axihp_writer.py:155" *) 1'h1;
+  assign \$50  = m_axi_wi__bvalid == (* src = "axihp_writer.py:155" *) 1'h1;
+  assign \$52  = \$48  & (* src = "axihp_writer.py:155" *) \$50 ;
+  assign \$54  = bready == (* src = "axihp_writer.py:158" *) 1'h0;
+  assign \$56  = enable == (* src = "axihp_writer.py:160" *) 1'h1;
+  assign \$58  = unconf != (* src = "axihp_writer.py:160" *) 1'h0;
   assign \$5  = \$1  & (* src = "axihp_writer.py:96" *) \$3 ;
-  assign \$60  = \$56  & (* src = "axihp_writer.py:183" *) \$58 ;
-  assign \$62  = addr_en == (* src = "axihp_writer.py:187" *) 1'h0;
-  assign \$64  = wlast == (* src = "axihp_writer.py:187" *) 1'h1;
-  assign \$66  = \$62  & (* src = "axihp_writer.py:187" *) \$64 ;
-  assign \$69  = active + (* src = "axihp_writer.py:185" *) 1'h1;
-  assign \$72  = active - (* src = "axihp_writer.py:189" *) 1'h1;
-  assign \$74  = addr_en == (* src = "axihp_writer.py:192" *) 1'h1;
-  assign \$76  = resp_en == (* src = "axihp_writer.py:192" *) 1'h0;
-  assign \$78  = \$74  & (* src = "axihp_writer.py:192" *) \$76 ;
+  assign \$60  = \$56  | (* src = "axihp_writer.py:160" *) \$58 ;
+  assign \$62  = unconf == (* src = "axihp_writer.py:165" *) 1'h0;
+  assign \$64  = resp_en == (* src = "axihp_writer.py:170" *) 1'h1;
+  assign \$66  = m_axi_wi__bresp != (* src = "axihp_writer.py:170" *) 1'h0;
+  assign \$68  = \$64  & (* src = "axihp_writer.py:170" *) \$66 ;
+  assign \$70  = addr_en == (* src = "axihp_writer.py:179" *) 1'h1;
+  assign \$72  = data_en & (* src = "axihp_writer.py:179" *) wlast;
+  assign \$74  = \$72  == (* src = "axihp_writer.py:179" *) 1'h0;
+  assign \$76  = \$70  & (* src = "axihp_writer.py:179" *) \$74 ;
+  assign \$78  = addr_en == (* src = "axihp_writer.py:183" *) 1'h0;
   assign \$7  = awvalid == (* src = "axihp_writer.py:99" *) 1'h0;
-  assign \$80  = addr_en == (* src = "axihp_writer.py:196" *) 1'h0;
-  assign \$82  = resp_en == (* src = "axihp_writer.py:196" *) 1'h1;
-  assign \$84  = \$80  & (* src = "axihp_writer.py:196" *) \$82 ;
-  assign \$87  = unconf + (* src = "axihp_writer.py:194" *) 1'h1;
-  assign \$90  = unconf - (* src = "axihp_writer.py:198" *) 1'h1;
-  assign \$92  = active == (* src = "axihp_writer.py:200" *) 1'h0;
-  assign \$94  = unconf == (* src = "axihp_writer.py:200" *) 1'h0;
-  assign \$96  = \$92  & (* src = "axihp_writer.py:200" *) \$94 ;
-  always @(posedge clk)
-      unconf <= \$next\unconf ;
-  always @(posedge clk)
-      active <= \$next\active ;
-  always @(posedge clk)
-      bready <= \$next\bready ;
-  always @(posedge clk)
-      wvalid <= \$next\wvalid ;
-  always @(posedge clk)
-      wlast <= \$next\wlast ;
-  always @(posedge clk)
-      counter <= \$next\counter ;
-  always @(posedge clk)
-      awvalid <= \$next\awvalid ;
-  always @* begin
-    \$next\awlen_c  = 4'h0;
-    \$next\awlen_c  = 4'hf;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\addr_en  = 1'h0;
-    \$next\addr_en  = \$5 ;
-  end
-  always @* begin
-    \$next\m_axi_wo__wdata  = 64'h0000000000000000;
-    \$next\m_axi_wo__wdata  = data_in;
-  end
-  always @* begin
-    \$next\m_axi_wo__wvalid  = 1'h0;
-    \$next\m_axi_wo__wvalid  = wvalid;
-  end
-  always @* begin
-    \$next\m_axi_wo__wlast  = 1'h0;
-    \$next\m_axi_wo__wlast  = wlast;
-  end
-  always @* begin
-    \$next\data_enable  = 1'h0;
-    \$next\data_enable  = data_en;
-  end
-  always @* begin
-    \$next\resp_en  = 1'h0;
-    \$next\resp_en  = \$44 ;
-  end
-  always @* begin
-    \$next\bready  = bready;
-    casez (\$46 )
-      1'h1:
-          casez (enable)
-            1'h1:
-                \$next\bready  = 1'h1;
-          endcase
-      1'hz:
-          casez (\$48 )
-            1'h1:
-                \$next\bready  = 1'h0;
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\bready  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\m_axi_wo__bready  = 1'h0;
-    \$next\m_axi_wo__bready  = bready;
-  end
-  always @* begin
-    \$next\writer_error  = 1'h0;
-    \$next\writer_error  = \$54 ;
-  end
-  always @* begin
-    \$next\active  = active;
-    casez ({ \$66 , \$60  })
-      2'bz1:
-          \$next\active  = \$68 [3:0];
-      2'b1z:
-          \$next\active  = \$71 [3:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\active  = 4'h0;
-    endcase
-  end
-  always @* begin
-    \$next\unconf  = unconf;
-    casez ({ \$84 , \$78  })
-      2'bz1:
-          \$next\unconf  = \$86 [3:0];
-      2'b1z:
-          \$next\unconf  = \$89 [3:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\unconf  = 4'h0;
-    endcase
-  end
+  assign \$80  = data_en & (* src = "axihp_writer.py:183" *) wlast;
+  assign \$82  = \$80  == (* src = "axihp_writer.py:183" *) 1'h1;
+  assign \$84  = \$78  & (* src = "axihp_writer.py:183" *) \$82 ;
+  assign \$87  = active + (* src = "axihp_writer.py:181" *) 1'h1;
+  assign \$90  = active - (* src = "axihp_writer.py:185" *) 1'h1;
+  assign \$92  = addr_en == (* src = "axihp_writer.py:188" *) 1'h1;
+  assign \$94  = resp_en == (* src = "axihp_writer.py:188" *) 1'h0;
+  assign \$96  = \$92  & (* src = "axihp_writer.py:188" *) \$94 ;
+  assign \$98  = addr_en == (* src = "axihp_writer.py:192" *) 1'h0;
+  always @(posedge full_clk)
+    unconf <= \unconf$next ;
+  always @(posedge full_clk)
+    active <= \active$next ;
+  always @(posedge full_clk)
+    bready <= \bready$next ;
+  always @(posedge full_clk)
+    wvalid <= \wvalid$next ;
+  always @(posedge full_clk)
+    counter <= \counter$next ;
+  always @(posedge full_clk)
+    awvalid <= \awvalid$next ;
   always @* begin
-    \$next\awvalid  = awvalid;
-    casez (\$7 )
-      1'h1:
-          casez (\$17 )
-            1'h1:
-                \$next\awvalid  = 1'h1;
-          endcase
-    endcase
-    casez (awvalid)
-      1'h1:
-          casez (m_axi_wi__awready)
-            1'h1:
-                \$next\awvalid  = 1'h0;
-          endcase
-    endcase
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$209 ) begin end
+    \bready$next  = bready;
+    (* src = "axihp_writer.py:158" *)
+    casez (\$54 )
+      /* src = "axihp_writer.py:158" */
       1'h1:
-          \$next\awvalid  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\inactive  = 1'h0;
-    \$next\inactive  = \$96 ;
-  end
-  always @* begin
-    \$next\m_axi_wo__awid  = 6'h00;
-    \$next\m_axi_wo__awid  = 6'h00;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__wid  = 6'h00;
-    \$next\m_axi_wo__wid  = 6'h00;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__awlen  = 4'h0;
-    \$next\m_axi_wo__awlen  = awlen_c;
-  end
-  always @* begin
-    \$next\m_axi_wo__awburst  = 2'h0;
-    \$next\m_axi_wo__awburst  = 2'h1;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__awsize  = 2'h0;
-    \$next\m_axi_wo__awsize  = 2'h3;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\m_axi_wo__wstrb  = 8'h00;
-    \$next\m_axi_wo__wstrb  = write_strobe;
-  end
-  always @* begin
-    \$next\m_axi_wo__awprot  = 3'h0;
-    \$next\m_axi_wo__awprot  = 3'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\data_clk  = 1'h0;
-    \$next\data_clk  = m_axi_aclk;
-  end
-  always @* begin
-    \$next\addr_clk  = 1'h0;
-    \$next\addr_clk  = m_axi_aclk;
-  end
-  always @* begin
-    \$next\m_axi_wo__awaddr  = 32'd0;
-    \$next\m_axi_wo__awaddr  = addr_in;
-  end
-  always @* begin
-    \$next\writer_active  = 4'h0;
-    \$next\writer_active  = active;
-  end
-  always @* begin
-    \$next\writer_unconf  = 4'h0;
-    \$next\writer_unconf  = unconf;
+          (* src = "axihp_writer.py:160" *)
+          casez (\$60 )
+            /* src = "axihp_writer.py:160" */
+            1'h1:
+                \bready$next  = 1'h1;
+          endcase
+      /* src = "axihp_writer.py:164" */
+      default:
+          (* src = "axihp_writer.py:165" *)
+          casez (\$62 )
+            /* src = "axihp_writer.py:165" */
+            1'h1:
+                \bready$next  = 1'h0;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
+      1'h1:
+          \bready$next  = 1'h0;
+    endcase
   end
   always @* begin
-    \$next\m_axi_wo__awvalid  = 1'h0;
-    \$next\m_axi_wo__awvalid  = awvalid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$209 ) begin end
+    \active$next  = active;
+    (* src = "axihp_writer.py:179" *)
+    casez ({ \$84 , \$76  })
+      /* src = "axihp_writer.py:179" */
+      2'b?1:
+          \active$next  = \$87 [3:0];
+      /* src = "axihp_writer.py:183" */
+      2'b1?:
+          \active$next  = \$90 [3:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
+      1'h1:
+          \active$next  = 4'h0;
+    endcase
   end
   always @* begin
-    \$next\addr_enable  = 1'h0;
-    \$next\addr_enable  = addr_en;
+    if (\$auto$verilog_backend.cc:2184:dump_module$209 ) begin end
+    \unconf$next  = unconf;
+    (* src = "axihp_writer.py:188" *)
+    casez ({ \$102 , \$96  })
+      /* src = "axihp_writer.py:188" */
+      2'b?1:
+          \unconf$next  = \$105 [3:0];
+      /* src = "axihp_writer.py:192" */
+      2'b1?:
+          \unconf$next  = \$108 [3:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
+      1'h1:
+          \unconf$next  = 4'h0;
+    endcase
   end
   always @* begin
-    \$next\counter  = counter;
-    casez (data_en)
+    if (\$auto$verilog_backend.cc:2184:dump_module$209 ) begin end
+    \awvalid$next  = awvalid;
+    (* src = "axihp_writer.py:99" *)
+    casez (\$7 )
+      /* src = "axihp_writer.py:99" */
       1'h1:
-          casez (\$19 )
+          (* src = "axihp_writer.py:101" *)
+          casez (\$21 )
+            /* src = "axihp_writer.py:101" */
             1'h1:
-                \$next\counter  = 4'h0;
-            1'hz:
-                \$next\counter  = \$21 [3:0];
+                \awvalid$next  = 1'h1;
           endcase
     endcase
-    casez (rst)
+    (* src = "axihp_writer.py:105" *)
+    casez (awvalid)
+      /* src = "axihp_writer.py:105" */
+      1'h1:
+          (* src = "axihp_writer.py:106" *)
+          casez (m_axi_wi__awready)
+            /* src = "axihp_writer.py:106" */
+            1'h1:
+                \awvalid$next  = 1'h0;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \awvalid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wlast  = wlast;
+    if (\$auto$verilog_backend.cc:2184:dump_module$209 ) begin end
+    \counter$next  = counter;
+    (* src = "axihp_writer.py:122" *)
     casez (data_en)
+      /* src = "axihp_writer.py:122" */
       1'h1:
-          casez (\$24 )
+          (* src = "axihp_writer.py:123" *)
+          casez (wlast)
+            /* src = "axihp_writer.py:123" */
             1'h1:
-                \$next\wlast  = 1'h1;
-            1'hz:
-                \$next\wlast  = 1'h0;
+                \counter$next  = 4'h0;
+            /* src = "axihp_writer.py:125" */
+            default:
+                \counter$next  = \$24 [3:0];
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\wlast  = 1'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\data_en  = 1'h0;
-    \$next\data_en  = \$30 ;
-  end
-  always @* begin
-    \$next\wvalid  = wvalid;
-    casez (\$32 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$209 ) begin end
+    \wvalid$next  = wvalid;
+    (* src = "axihp_writer.py:133" *)
+    casez (\$34 )
+      /* src = "axihp_writer.py:133" */
       1'h1:
-          casez (\$38 )
+          (* src = "axihp_writer.py:135" *)
+          casez (\$40 )
+            /* src = "axihp_writer.py:135" */
             1'h1:
-                \$next\wvalid  = 1'h1;
+                \wvalid$next  = 1'h1;
           endcase
-      1'hz:
-          casez (wlast)
+      /* src = "axihp_writer.py:139" */
+      default:
+          (* src = "axihp_writer.py:140" *)
+          casez (\$46 )
+            /* src = "axihp_writer.py:140" */
             1'h1:
-                \$next\wvalid  = 1'h0;
+                \wvalid$next  = 1'h0;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\wvalid  = 1'h0;
+          \wvalid$next  = 1'h0;
     endcase
   end
-  assign \$21  = \$22 ;
-  assign \$68  = \$69 ;
-  assign \$71  = \$72 ;
+  assign \$23  = \$24 ;
   assign \$86  = \$87 ;
   assign \$89  = \$90 ;
-  assign writer_unconf = \$next\writer_unconf ;
-  assign writer_active = \$next\writer_active ;
-  assign addr_clk = \$next\addr_clk ;
-  assign data_clk = \$next\data_clk ;
-  assign m_axi_wo__awprot = \$next\m_axi_wo__awprot ;
-  assign m_axi_wo__wstrb = \$next\m_axi_wo__wstrb ;
-  assign m_axi_wo__awsize = \$next\m_axi_wo__awsize ;
-  assign m_axi_wo__awburst = \$next\m_axi_wo__awburst ;
-  assign m_axi_wo__awlen = \$next\m_axi_wo__awlen ;
-  assign m_axi_wo__wid = \$next\m_axi_wo__wid ;
-  assign m_axi_wo__awid = \$next\m_axi_wo__awid ;
-  assign inactive = \$next\inactive ;
-  assign writer_error = \$next\writer_error ;
-  assign m_axi_wo__bready = \$next\m_axi_wo__bready ;
-  assign resp_en = \$next\resp_en ;
-  assign data_enable = \$next\data_enable ;
-  assign m_axi_wo__wlast = \$next\m_axi_wo__wlast ;
-  assign m_axi_wo__wvalid = \$next\m_axi_wo__wvalid ;
-  assign m_axi_wo__wdata = \$next\m_axi_wo__wdata ;
-  assign data_en = \$next\data_en ;
-  assign addr_enable = \$next\addr_enable ;
-  assign m_axi_wo__awvalid = \$next\m_axi_wo__awvalid ;
-  assign m_axi_wo__awaddr = \$next\m_axi_wo__awaddr ;
-  assign addr_en = \$next\addr_en ;
-  assign awlen_c = \$next\awlen_c ;
+  assign \$104  = \$105 ;
+  assign \$107  = \$108 ;
+  assign writer_unconf = unconf;
+  assign writer_active = active;
+  assign addr_clk = m_axi_aclk;
+  assign data_clk = m_axi_aclk;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awprot = 3'h0;
+  assign m_axi_wo__wstrb = write_strobe;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awsize = 2'h3;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awburst = 2'h1;
+  assign m_axi_wo__awlen = awlen_c;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__wid = 6'h00;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign m_axi_wo__awid = 6'h00;
+  assign inactive = \$114 ;
+  assign writer_error = \$68 ;
+  assign m_axi_wo__bready = bready;
+  assign resp_en = \$52 ;
+  assign data_enable = data_en;
+  assign m_axi_wo__wlast = wlast;
+  assign m_axi_wo__wvalid = wvalid;
+  assign m_axi_wo__wdata = data_in;
+  assign data_en = \$32 ;
+  assign wlast = \$26 ;
+  assign addr_enable = addr_en;
+  assign m_axi_wo__awvalid = awvalid;
+  assign m_axi_wo__awaddr = addr_in;
+  assign addr_en = \$5 ;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign awlen_c = 4'hf;
 endmodule
 
-(* \nmigen.hierarchy  = "top.b16_b64" *)
 (* generator = "nMigen" *)
-module b16_b64(end_in, i_busy, data_in, rst, clk, end_out, data_out, valid_out, o_busy, valid_in);
+(* \nmigen.hierarchy  = "top.b16_b64" *)
+module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, full_rst, full_clk, end_out);
+  reg \$auto$verilog_backend.cc:2184:dump_module$210  = 0;
+  (* src = "b16_b64.py:96" *)
   wire \$1 ;
+  (* src = "b16_b64.py:76" *)
   wire \$11 ;
+  (* src = "b16_b64.py:81" *)
   wire \$13 ;
+  (* src = "b16_b64.py:81" *)
   wire \$15 ;
+  (* src = "b16_b64.py:81" *)
   wire \$17 ;
+  (* src = "b16_b64.py:81" *)
   wire \$19 ;
+  (* src = "b16_b64.py:81" *)
   wire \$21 ;
+  (* src = "b16_b64.py:82" *)
   wire [3:0] \$23 ;
+  (* src = "b16_b64.py:82" *)
   wire [3:0] \$24 ;
+  (* src = "b16_b64.py:83" *)
   wire \$26 ;
+  (* src = "b16_b64.py:83" *)
   wire \$28 ;
+  (* src = "b16_b64.py:96" *)
   wire \$3 ;
+  (* src = "b16_b64.py:83" *)
   wire \$30 ;
+  (* src = "b16_b64.py:87" *)
   wire \$32 ;
+  (* src = "b16_b64.py:89" *)
   wire \$34 ;
+  (* src = "b16_b64.py:93" *)
   wire \$36 ;
+  (* src = "b16_b64.py:93" *)
   wire \$38 ;
+  (* src = "b16_b64.py:93" *)
   wire \$40 ;
+  (* src = "b16_b64.py:93" *)
   wire \$42 ;
+  (* src = "b16_b64.py:93" *)
   wire \$44 ;
+  (* src = "b16_b64.py:96" *)
   wire \$46 ;
+  (* src = "b16_b64.py:96" *)
   wire \$48 ;
+  (* src = "b16_b64.py:96" *)
   wire \$5 ;
+  (* src = "b16_b64.py:96" *)
   wire \$50 ;
+  (* src = "b16_b64.py:98" *)
   wire \$52 ;
+  (* src = "b16_b64.py:96" *)
   wire \$54 ;
+  (* src = "b16_b64.py:96" *)
   wire \$56 ;
+  (* src = "b16_b64.py:96" *)
   wire \$58 ;
+  (* src = "b16_b64.py:99" *)
   wire \$60 ;
+  (* src = "b16_b64.py:96" *)
   wire \$62 ;
+  (* src = "b16_b64.py:96" *)
   wire \$64 ;
+  (* src = "b16_b64.py:96" *)
   wire \$66 ;
+  (* src = "b16_b64.py:101" *)
   wire \$68 ;
+  (* src = "b16_b64.py:76" *)
   wire \$7 ;
+  (* src = "b16_b64.py:110" *)
   wire \$70 ;
+  (* src = "b16_b64.py:137" *)
   wire \$72 ;
+  (* src = "b16_b64.py:148" *)
   wire \$74 ;
+  (* src = "b16_b64.py:175" *)
   wire \$76 ;
+  (* src = "b16_b64.py:110" *)
   wire \$78 ;
+  (* src = "b16_b64.py:137" *)
   wire \$80 ;
+  (* src = "b16_b64.py:148" *)
   wire \$82 ;
+  (* src = "b16_b64.py:175" *)
   wire \$84 ;
+  (* src = "b16_b64.py:76" *)
   wire \$9 ;
   (* src = "b16_b64.py:67" *)
-  reg \$next\buff_chs ;
-  (* src = "b16_b64.py:59" *)
-  reg [63:0] \$next\buffer1 ;
-  (* src = "b16_b64.py:60" *)
-  reg \$next\buffer1_valid ;
-  (* src = "b16_b64.py:63" *)
-  reg [63:0] \$next\buffer2 ;
-  (* src = "b16_b64.py:64" *)
-  reg \$next\buffer2_valid ;
-  (* src = "b16_b64.py:80" *)
-  reg [2:0] \$next\counter ;
-  (* src = "b16_b64.py:37" *)
-  reg [63:0] \$next\data_out ;
-  (* src = "b16_b64.py:44" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [3:0] \$next\fsm_state ;
-  (* src = "b16_b64.py:70" *)
-  reg \$next\is_valid ;
-  (* src = "b16_b64.py:46" *)
-  reg \$next\o_busy ;
-  (* src = "b16_b64.py:74" *)
-  reg \$next\reg_end ;
-  (* src = "b16_b64.py:41" *)
-  reg \$next\valid_out ;
-  (* init = 1'h0 *)
-  (* src = "b16_b64.py:67" *)
   reg buff_chs = 1'h0;
-  (* init = 64'h0000000000000000 *)
+  (* src = "b16_b64.py:67" *)
+  reg \buff_chs$next ;
   (* src = "b16_b64.py:59" *)
   reg [63:0] buffer1 = 64'h0000000000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b64.py:59" *)
+  reg [63:0] \buffer1$next ;
   (* src = "b16_b64.py:60" *)
   reg buffer1_valid = 1'h0;
-  (* init = 64'h0000000000000000 *)
+  (* src = "b16_b64.py:60" *)
+  reg \buffer1_valid$next ;
   (* src = "b16_b64.py:63" *)
   reg [63:0] buffer2 = 64'h0000000000000000;
-  (* init = 1'h0 *)
+  (* src = "b16_b64.py:63" *)
+  reg [63:0] \buffer2$next ;
   (* src = "b16_b64.py:64" *)
   reg buffer2_valid = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 3'h0 *)
+  (* src = "b16_b64.py:64" *)
+  reg \buffer2_valid$next ;
   (* src = "b16_b64.py:80" *)
   reg [2:0] counter = 3'h0;
+  (* src = "b16_b64.py:80" *)
+  reg [2:0] \counter$next ;
   (* src = "b16_b64.py:34" *)
   input [15:0] data_in;
-  (* init = 64'h0000000000000000 *)
+  wire [15:0] data_in;
   (* src = "b16_b64.py:37" *)
   output [63:0] data_out;
   reg [63:0] data_out = 64'h0000000000000000;
+  (* src = "b16_b64.py:37" *)
+  reg [63:0] \data_out$next ;
   (* src = "b16_b64.py:43" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "b16_b64.py:44" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 4'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "b16_b64.py:44" *)
+  reg \end_out$next ;
+  (* src = "b16_b64.py:105" *)
   reg [3:0] fsm_state = 4'h0;
+  (* src = "b16_b64.py:105" *)
+  reg [3:0] \fsm_state$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
   (* src = "b16_b64.py:47" *)
   input i_busy;
+  wire i_busy;
   (* src = "b16_b64.py:70" *)
-  wire is_valid;
-  (* init = 1'h0 *)
+  reg is_valid;
   (* src = "b16_b64.py:46" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "b16_b64.py:46" *)
+  reg \o_busy$next ;
   (* src = "b16_b64.py:74" *)
   reg reg_end = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
+  (* src = "b16_b64.py:74" *)
+  reg \reg_end$next ;
   (* src = "b16_b64.py:40" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "b16_b64.py:41" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "b16_b64.py:41" *)
+  reg \valid_out$next ;
   assign \$9  = o_busy == (* src = "b16_b64.py:76" *) 1'h0;
   assign \$11  = \$7  & (* src = "b16_b64.py:76" *) \$9 ;
   assign \$13  = reg_end == (* src = "b16_b64.py:81" *) 1'h1;
@@ -2356,826 +2759,1196 @@ module b16_b64(end_in, i_busy, data_in, rst, clk, end_out, data_out, valid_out,
   assign \$80  = buffer2_valid == (* src = "b16_b64.py:137" *) 1'h0;
   assign \$82  = buffer2_valid == (* src = "b16_b64.py:148" *) 1'h0;
   assign \$84  = buffer1_valid == (* src = "b16_b64.py:175" *) 1'h0;
-  always @(posedge clk)
-      buffer2 <= \$next\buffer2 ;
-  always @(posedge clk)
-      buffer1 <= \$next\buffer1 ;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      o_busy <= \$next\o_busy ;
-  always @(posedge clk)
-      buffer2_valid <= \$next\buffer2_valid ;
-  always @(posedge clk)
-      buffer1_valid <= \$next\buffer1_valid ;
-  always @(posedge clk)
-      buff_chs <= \$next\buff_chs ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      data_out <= \$next\data_out ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      counter <= \$next\counter ;
-  always @(posedge clk)
-      reg_end <= \$next\reg_end ;
+  always @(posedge full_clk)
+    buffer2 <= \buffer2$next ;
+  always @(posedge full_clk)
+    buffer1 <= \buffer1$next ;
+  always @(posedge full_clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge full_clk)
+    o_busy <= \o_busy$next ;
+  always @(posedge full_clk)
+    buffer2_valid <= \buffer2_valid$next ;
+  always @(posedge full_clk)
+    buffer1_valid <= \buffer1_valid$next ;
+  always @(posedge full_clk)
+    buff_chs <= \buff_chs$next ;
+  always @(posedge full_clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge full_clk)
+    data_out <= \data_out$next ;
+  always @(posedge full_clk)
+    end_out <= \end_out$next ;
+  always @(posedge full_clk)
+    counter <= \counter$next ;
+  always @(posedge full_clk)
+    reg_end <= \reg_end$next ;
   always @* begin
-    \$next\is_valid  = 1'h0;
-    \$next\is_valid  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    is_valid = 1'h1;
+    (* src = "b16_b64.py:96" *)
     casez (\$5 )
+      /* src = "b16_b64.py:96" */
       1'h1:
-          \$next\is_valid  = 1'h0;
+          is_valid = 1'h0;
     endcase
   end
   always @* begin
-    \$next\reg_end  = reg_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \reg_end$next  = reg_end;
+    (* src = "b16_b64.py:76" *)
     casez (\$11 )
+      /* src = "b16_b64.py:76" */
       1'h1:
-          \$next\reg_end  = end_in;
+          \reg_end$next  = end_in;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\reg_end  = 1'h0;
+          \reg_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       4'h0:
+          (* src = "b16_b64.py:110" *)
           casez (\$78 )
+            /* src = "b16_b64.py:110" */
             1'h1:
-                \$next\fsm_state  = 4'h1;
+                \fsm_state$next  = 4'h1;
           endcase
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       4'h1:
+          (* src = "b16_b64.py:115" *)
           casez (valid_in)
+            /* src = "b16_b64.py:115" */
             1'h1:
-                \$next\fsm_state  = 4'h2;
+                \fsm_state$next  = 4'h2;
           endcase
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       4'h2:
+          (* src = "b16_b64.py:120" *)
           casez (valid_in)
+            /* src = "b16_b64.py:120" */
             1'h1:
-                \$next\fsm_state  = 4'h3;
+                \fsm_state$next  = 4'h3;
           endcase
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       4'h3:
+          (* src = "b16_b64.py:125" *)
           casez (valid_in)
+            /* src = "b16_b64.py:125" */
             1'h1:
-                \$next\fsm_state  = 4'h4;
+                \fsm_state$next  = 4'h4;
           endcase
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
+                (* src = "b16_b64.py:137" *)
                 casez (\$80 )
+                  /* src = "b16_b64.py:137" */
                   1'h1:
-                      \$next\fsm_state  = 4'h5;
-                  1'hz:
-                      \$next\fsm_state  = 4'h6;
+                      \fsm_state$next  = 4'h5;
+                  /* src = "b16_b64.py:140" */
+                  default:
+                      \fsm_state$next  = 4'h6;
                 endcase
           endcase
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
       4'h6:
+          (* src = "b16_b64.py:148" *)
           casez (\$82 )
+            /* src = "b16_b64.py:148" */
             1'h1:
-                \$next\fsm_state  = 4'h5;
+                \fsm_state$next  = 4'h5;
           endcase
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
       4'h5:
+          (* src = "b16_b64.py:153" *)
           casez (valid_in)
+            /* src = "b16_b64.py:153" */
             1'h1:
-                \$next\fsm_state  = 4'h7;
+                \fsm_state$next  = 4'h7;
           endcase
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
       4'h7:
+          (* src = "b16_b64.py:158" *)
           casez (valid_in)
+            /* src = "b16_b64.py:158" */
             1'h1:
-                \$next\fsm_state  = 4'h8;
+                \fsm_state$next  = 4'h8;
           endcase
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
       4'h8:
+          (* src = "b16_b64.py:163" *)
           casez (valid_in)
+            /* src = "b16_b64.py:163" */
             1'h1:
-                \$next\fsm_state  = 4'h9;
+                \fsm_state$next  = 4'h9;
           endcase
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
+                (* src = "b16_b64.py:175" *)
                 casez (\$84 )
+                  /* src = "b16_b64.py:175" */
                   1'h1:
-                      \$next\fsm_state  = 4'h1;
-                  1'hz:
-                      \$next\fsm_state  = 4'h0;
+                      \fsm_state$next  = 4'h1;
+                  /* src = "b16_b64.py:178" */
+                  default:
+                      \fsm_state$next  = 4'h0;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\fsm_state  = 4'h0;
+          \fsm_state$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1  = buffer1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \buffer1$next  = buffer1;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
       4'h1:
+          (* src = "b16_b64.py:115" *)
           casez (valid_in)
+            /* src = "b16_b64.py:115" */
             1'h1:
-                \$next\buffer1 [63:48] = data_in;
+                \buffer1$next [63:48] = data_in;
           endcase
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
       4'h2:
+          (* src = "b16_b64.py:120" *)
           casez (valid_in)
+            /* src = "b16_b64.py:120" */
             1'h1:
-                \$next\buffer1 [47:32] = data_in;
+                \buffer1$next [47:32] = data_in;
           endcase
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
       4'h3:
+          (* src = "b16_b64.py:125" *)
           casez (valid_in)
+            /* src = "b16_b64.py:125" */
             1'h1:
-                \$next\buffer1 [31:16] = data_in;
+                \buffer1$next [31:16] = data_in;
           endcase
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
-                \$next\buffer1 [15:0] = data_in;
+                \buffer1$next [15:0] = data_in;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\buffer1  = 64'h0000000000000000;
+          \buffer1$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\buffer2  = buffer2;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \buffer2$next  = buffer2;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
+      4'h4:
+          /* empty */;
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
+      4'h6:
+          /* empty */;
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
       4'h5:
+          (* src = "b16_b64.py:153" *)
           casez (valid_in)
+            /* src = "b16_b64.py:153" */
             1'h1:
-                \$next\buffer2 [63:48] = data_in;
+                \buffer2$next [63:48] = data_in;
           endcase
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
       4'h7:
+          (* src = "b16_b64.py:158" *)
           casez (valid_in)
+            /* src = "b16_b64.py:158" */
             1'h1:
-                \$next\buffer2 [47:32] = data_in;
+                \buffer2$next [47:32] = data_in;
           endcase
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
       4'h8:
+          (* src = "b16_b64.py:163" *)
           casez (valid_in)
+            /* src = "b16_b64.py:163" */
             1'h1:
-                \$next\buffer2 [31:16] = data_in;
+                \buffer2$next [31:16] = data_in;
           endcase
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
-                \$next\buffer2 [15:0] = data_in;
+                \buffer2$next [15:0] = data_in;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\buffer2  = 64'h0000000000000000;
+          \buffer2$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \counter$next  = counter;
+    (* src = "b16_b64.py:81" *)
     casez (\$21 )
+      /* src = "b16_b64.py:81" */
       1'h1:
-          \$next\counter  = \$23 [2:0];
+          \counter$next  = \$24 [2:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\counter  = 3'h0;
+          \counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \end_out$next  = end_out;
+    (* src = "b16_b64.py:83" *)
     casez (\$30 )
+      /* src = "b16_b64.py:83" */
       1'h1:
-          \$next\end_out  = 1'h1;
+          \end_out$next  = 1'h1;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \data_out$next  = data_out;
+    (* src = "b16_b64.py:87" *)
     casez (\$32 )
+      /* src = "b16_b64.py:87" */
       1'h1:
-          \$next\data_out  = buffer1;
+          \data_out$next  = buffer1;
     endcase
+    (* src = "b16_b64.py:89" *)
     casez (\$34 )
+      /* src = "b16_b64.py:89" */
       1'h1:
-          \$next\data_out  = buffer2;
+          \data_out$next  = buffer2;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\data_out  = 64'h0000000000000000;
+          \data_out$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = \$44 ;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \valid_out$next  = \$44 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_chs  = buff_chs;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \buff_chs$next  = buff_chs;
+    (* src = "b16_b64.py:96" *)
     casez (\$50 )
+      /* src = "b16_b64.py:96" */
       1'h1:
-          \$next\buff_chs  = \$52 ;
+          \buff_chs$next  = \$52 ;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\buff_chs  = 1'h0;
+          \buff_chs$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer1_valid  = buffer1_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \buffer1_valid$next  = buffer1_valid;
+    (* src = "b16_b64.py:96" *)
     casez (\$58 )
+      /* src = "b16_b64.py:96" */
       1'h1:
+          (* src = "b16_b64.py:99" *)
           casez (\$60 )
+            /* src = "b16_b64.py:99" */
             1'h1:
-                \$next\buffer1_valid  = 1'h0;
+                \buffer1_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
-                \$next\buffer1_valid  = 1'h1;
+                \buffer1_valid$next  = 1'h1;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\buffer1_valid  = 1'h0;
+          \buffer1_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer2_valid  = buffer2_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \buffer2_valid$next  = buffer2_valid;
+    (* src = "b16_b64.py:96" *)
     casez (\$66 )
+      /* src = "b16_b64.py:96" */
       1'h1:
+          (* src = "b16_b64.py:101" *)
           casez (\$68 )
+            /* src = "b16_b64.py:101" */
             1'h1:
-                \$next\buffer2_valid  = 1'h0;
+                \buffer2_valid$next  = 1'h0;
           endcase
     endcase
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
+      4'h4:
+          /* empty */;
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
+      4'h6:
+          /* empty */;
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
+      4'h5:
+          /* empty */;
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
+      4'h8:
+          /* empty */;
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
-                \$next\buffer2_valid  = 1'h1;
+                \buffer2_valid$next  = 1'h1;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\buffer2_valid  = 1'h0;
+          \buffer2_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "b16_b64.py:105" *)
     casez (fsm_state)
+      /* src = "b16_b64.py:108" */
+      /* \nmigen.decoding  = "BUFF1_IDLE/0" */
       4'h0:
+          (* src = "b16_b64.py:110" *)
           casez (\$70 )
+            /* src = "b16_b64.py:110" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b64.py:114" */
+      /* \nmigen.decoding  = "BUFF1_FILL_1/1" */
+      4'h1:
+          /* empty */;
+      /* src = "b16_b64.py:119" */
+      /* \nmigen.decoding  = "BUFF1_FILL_2/2" */
+      4'h2:
+          /* empty */;
+      /* src = "b16_b64.py:124" */
+      /* \nmigen.decoding  = "BUFF1_FILL_3/3" */
+      4'h3:
+          /* empty */;
+      /* src = "b16_b64.py:129" */
+      /* \nmigen.decoding  = "BUFF1_FILL_4/4" */
       4'h4:
+          (* src = "b16_b64.py:130" *)
           casez (valid_in)
+            /* src = "b16_b64.py:130" */
             1'h1:
+                (* src = "b16_b64.py:137" *)
                 casez (\$72 )
+                  /* src = "b16_b64.py:137" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b64.py:140" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
+      /* src = "b16_b64.py:146" */
+      /* \nmigen.decoding  = "BUFF2_IDLE/6" */
       4'h6:
+          (* src = "b16_b64.py:148" *)
           casez (\$74 )
+            /* src = "b16_b64.py:148" */
             1'h1:
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
           endcase
+      /* src = "b16_b64.py:152" */
+      /* \nmigen.decoding  = "BUFF2_FILL_1/5" */
+      4'h5:
+          /* empty */;
+      /* src = "b16_b64.py:157" */
+      /* \nmigen.decoding  = "BUFF2_FILL_2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "b16_b64.py:162" */
+      /* \nmigen.decoding  = "BUFF2_FILL_3/8" */
+      4'h8:
+          /* empty */;
+      /* src = "b16_b64.py:167" */
+      /* \nmigen.decoding  = "BUFF2_FILL_4/9" */
       4'h9:
+          (* src = "b16_b64.py:168" *)
           casez (valid_in)
+            /* src = "b16_b64.py:168" */
             1'h1:
+                (* src = "b16_b64.py:175" *)
                 casez (\$76 )
+                  /* src = "b16_b64.py:175" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                  /* src = "b16_b64.py:178" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   assign \$23  = \$24 ;
-  assign is_valid = \$next\is_valid ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.b64_b32" *)
 (* generator = "nMigen" *)
-module b64_b32(data_in, i_busy, rst, clk, o_busy, valid_out, data_out, valid_in);
+(* \nmigen.hierarchy  = "top.b64_b32" *)
+module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk, data_out);
+  reg \$auto$verilog_backend.cc:2184:dump_module$211  = 0;
+  (* src = "b64_b32.py:105" *)
   wire \$10 ;
+  (* src = "b64_b32.py:105" *)
   wire \$12 ;
+  (* src = "b64_b32.py:105" *)
   wire \$14 ;
+  (* src = "b64_b32.py:105" *)
   wire \$16 ;
+  (* src = "b64_b32.py:105" *)
   wire \$18 ;
+  (* src = "b64_b32.py:105" *)
   wire \$2 ;
+  (* src = "b64_b32.py:105" *)
   wire \$20 ;
+  (* src = "b64_b32.py:105" *)
   wire \$22 ;
+  (* src = "b64_b32.py:105" *)
   wire \$24 ;
+  (* src = "b64_b32.py:105" *)
   wire \$26 ;
+  (* src = "b64_b32.py:105" *)
   wire \$28 ;
+  (* src = "b64_b32.py:105" *)
   wire \$30 ;
+  (* src = "b64_b32.py:125" *)
   wire \$32 ;
+  (* src = "b64_b32.py:105" *)
   wire \$4 ;
-  wire \$6 ;
-  wire \$8 ;
   (* src = "b64_b32.py:105" *)
-  reg [31:0] \$next\buff ;
-  (* src = "b64_b32.py:38" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [31:0] \$next\fifo32_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo32_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\fifo32_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo32_we ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [63:0] \$next\fifo64_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo64_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\fifo64_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo64_we ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg \$next\fsm_state$1 ;
-  (* src = "b64_b32.py:44" *)
-  reg \$next\o_busy ;
-  (* src = "b64_b32.py:68" *)
-  reg [63:0] \$next\reg ;
-  (* src = "b64_b32.py:42" *)
-  reg \$next\valid_out ;
-  (* init = 32'd0 *)
+  wire \$6 ;
   (* src = "b64_b32.py:105" *)
+  wire \$8 ;
+  (* src = "b64_b32.py:99" *)
   reg [31:0] buff = 32'd0;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
+  (* src = "b64_b32.py:99" *)
+  reg [31:0] \buff$next ;
   (* src = "b64_b32.py:35" *)
   input [63:0] data_in;
+  wire [63:0] data_in;
   (* src = "b64_b32.py:38" *)
   output [31:0] data_out;
-  (* init = 32'd0 *)
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [31:0] fifo32_din = 32'd0;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [31:0] fifo32_dout;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo32_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo32_readable;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg fifo32_replace = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg fifo32_we = 1'h0;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo32_writable;
-  (* init = 64'h0000000000000000 *)
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [63:0] fifo64_din = 64'h0000000000000000;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [63:0] fifo64_dout;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg fifo64_re = 1'h0;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo64_readable;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg fifo64_replace = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg fifo64_we = 1'h0;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo64_writable;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire [31:0] data_out;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [31:0] fifo32_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo32_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo32_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [31:0] fifo32_w_data = 32'd0;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [31:0] \fifo32_w_data$next ;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg fifo32_w_en = 1'h0;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg \fifo32_w_en$next ;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo32_w_rdy;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [63:0] fifo64_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  reg fifo64_r_en = 1'h0;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  reg \fifo64_r_en$next ;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo64_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [63:0] fifo64_w_data = 64'h0000000000000000;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  reg [63:0] \fifo64_w_data$next ;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg fifo64_w_en = 1'h0;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  reg \fifo64_w_en$next ;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo64_w_rdy;
+  (* src = "b64_b32.py:65" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "b64_b32.py:102" *)
   reg \fsm_state$1  = 1'h0;
+  (* src = "b64_b32.py:102" *)
+  reg \fsm_state$1$next ;
+  (* src = "b64_b32.py:65" *)
+  reg [1:0] \fsm_state$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
   (* src = "b64_b32.py:45" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "b64_b32.py:44" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 64'h0000000000000000 *)
-  (* src = "b64_b32.py:68" *)
+  (* src = "b64_b32.py:44" *)
+  reg \o_busy$next ;
+  (* src = "b64_b32.py:62" *)
   reg [63:0] \reg  = 64'h0000000000000000;
-  (* src = "clk_domains.py:5" *)
-  input rst;
+  (* src = "b64_b32.py:62" *)
+  reg [63:0] \reg$next ;
   (* src = "b64_b32.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "b64_b32.py:42" *)
   output valid_out;
-  assign \$10  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$12  = \$8  & (* src = "b64_b32.py:111" *) \$10 ;
-  assign \$14  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$16  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$18  = \$14  & (* src = "b64_b32.py:111" *) \$16 ;
-  assign \$20  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$22  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$24  = \$20  & (* src = "b64_b32.py:111" *) \$22 ;
-  assign \$26  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$28  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$2  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$30  = \$26  & (* src = "b64_b32.py:111" *) \$28 ;
-  assign \$32  = i_busy == (* src = "b64_b32.py:131" *) 1'h0;
-  assign \$4  = fifo64_readable == (* src = "b64_b32.py:111" *) 1'h1;
-  assign \$6  = \$2  & (* src = "b64_b32.py:111" *) \$4 ;
-  assign \$8  = fifo32_writable == (* src = "b64_b32.py:111" *) 1'h1;
-  always @(posedge clk)
-      \fsm_state$1  <= \$next\fsm_state$1 ;
-  always @(posedge clk)
-      fifo64_re <= \$next\fifo64_re ;
-  always @(posedge clk)
-      fifo32_we <= \$next\fifo32_we ;
-  always @(posedge clk)
-      buff <= \$next\buff ;
-  always @(posedge clk)
-      fifo32_din <= \$next\fifo32_din ;
-  always @(posedge clk)
-      \reg  <= \$next\reg ;
-  always @(posedge clk)
-      fifo64_din <= \$next\fifo64_din ;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      o_busy <= \$next\o_busy ;
-  always @(posedge clk)
-      fifo64_we <= \$next\fifo64_we ;
-  always @(posedge clk)
-      fifo64_replace <= \$next\fifo64_replace ;
-  always @(posedge clk)
-      fifo32_replace <= \$next\fifo32_replace ;
+  wire valid_out;
+  assign \$10  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$12  = \$8  & (* src = "b64_b32.py:105" *) \$10 ;
+  assign \$14  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$16  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$18  = \$14  & (* src = "b64_b32.py:105" *) \$16 ;
+  assign \$20  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$22  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$24  = \$20  & (* src = "b64_b32.py:105" *) \$22 ;
+  assign \$26  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$28  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$2  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$30  = \$26  & (* src = "b64_b32.py:105" *) \$28 ;
+  assign \$32  = i_busy == (* src = "b64_b32.py:125" *) 1'h0;
+  assign \$4  = fifo64_r_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  assign \$6  = \$2  & (* src = "b64_b32.py:105" *) \$4 ;
+  assign \$8  = fifo32_w_rdy == (* src = "b64_b32.py:105" *) 1'h1;
+  always @(posedge full_clk)
+    \fsm_state$1  <= \fsm_state$1$next ;
+  always @(posedge full_clk)
+    fifo64_r_en <= \fifo64_r_en$next ;
+  always @(posedge full_clk)
+    fifo32_w_en <= \fifo32_w_en$next ;
+  always @(posedge full_clk)
+    buff <= \buff$next ;
+  always @(posedge full_clk)
+    fifo32_w_data <= \fifo32_w_data$next ;
+  always @(posedge full_clk)
+    \reg  <= \reg$next ;
+  always @(posedge full_clk)
+    fifo64_w_data <= \fifo64_w_data$next ;
+  always @(posedge full_clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge full_clk)
+    o_busy <= \o_busy$next ;
+  always @(posedge full_clk)
+    fifo64_w_en <= \fifo64_w_en$next ;
   fifo32 fifo32 (
-    .clk(clk),
-    .din(fifo32_din),
-    .dout(fifo32_dout),
-    .re(fifo32_re),
-    .readable(fifo32_readable),
-    .replace(fifo32_replace),
-    .rst(rst),
-    .we(fifo32_we),
-    .writable(fifo32_writable)
-  );
-  fifo64 fifo64 (
-    .clk(clk),
-    .din(fifo64_din),
-    .dout(fifo64_dout),
-    .re(fifo64_re),
-    .readable(fifo64_readable),
-    .replace(fifo64_replace),
-    .rst(rst),
-    .we(fifo64_we),
-    .writable(fifo64_writable)
-  );
-  always @* begin
-    \$next\fifo32_replace  = fifo32_replace;
-    \$next\fifo32_replace  = 1'h0;
-    casez (rst)
-      1'h1:
-          \$next\fifo32_replace  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fifo64_replace  = fifo64_replace;
-    \$next\fifo64_replace  = 1'h0;
-    casez (rst)
-      1'h1:
-          \$next\fifo64_replace  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fifo64_re  = fifo64_re;
-    casez (\fsm_state$1 )
-      1'h0:
-          casez ({ fifo32_writable, \$24  })
-            2'bz1:
-                \$next\fifo64_re  = 1'h1;
-          endcase
-      1'h1:
-          \$next\fifo64_re  = 1'h0;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\fifo64_re  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fsm_state$1  = \fsm_state$1 ;
-    casez (\fsm_state$1 )
-      1'h0:
-          casez ({ fifo32_writable, \$30  })
-            2'bz1:
-                \$next\fsm_state$1  = 1'h1;
-          endcase
-      1'h1:
-          casez (fifo32_writable)
-            1'h1:
-                \$next\fsm_state$1  = 1'h0;
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\fsm_state$1  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo32_readable;
-  end
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out  = fifo32_dout;
-  end
-  always @* begin
-    \$next\fifo32_re  = 1'h0;
-    \$next\fifo32_re  = \$32 ;
-  end
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .r_data(fifo32_r_data),
+    .r_en(fifo32_r_en),
+    .r_rdy(fifo32_r_rdy),
+    .w_data(fifo32_w_data),
+    .w_en(fifo32_w_en),
+    .w_rdy(fifo32_w_rdy)
+  );
+  fifo64 fifo64 (
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .r_data(fifo64_r_data),
+    .r_en(fifo64_r_en),
+    .r_rdy(fifo64_r_rdy),
+    .w_data(fifo64_w_data),
+    .w_en(fifo64_w_en),
+    .w_rdy(fifo64_w_rdy)
+  );
   always @* begin
-    \$next\fifo64_we  = fifo64_we;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \fifo64_w_en$next  = fifo64_w_en;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
       2'h0:
-          \$next\fifo64_we  = 1'h0;
+          \fifo64_w_en$next  = 1'h0;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\fifo64_we  = 1'h1;
+                      \fifo64_w_en$next  = 1'h1;
                 endcase
           endcase
+      /* src = "b64_b32.py:91" */
+      /* \nmigen.decoding  = "HANDLE_REG/2" */
       2'h2:
-          casez (fifo64_writable)
+          (* src = "b64_b32.py:92" *)
+          casez (fifo64_w_rdy)
+            /* src = "b64_b32.py:92" */
             1'h1:
-                \$next\fifo64_we  = 1'h1;
+                \fifo64_w_en$next  = 1'h1;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\fifo64_we  = 1'h0;
+          \fifo64_w_en$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
       2'h0:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\o_busy  = 1'h1;
-                  1'hz:
-                      \$next\o_busy  = 1'h1;
+                      \o_busy$next  = 1'h1;
+                  /* src = "b64_b32.py:84" */
+                  default:
+                      \o_busy$next  = 1'h1;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
       2'h0:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\fsm_state  = 2'h0;
-                  1'hz:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h0;
+                  /* src = "b64_b32.py:84" */
+                  default:
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
+      /* src = "b64_b32.py:91" */
+      /* \nmigen.decoding  = "HANDLE_REG/2" */
       2'h2:
-          casez (fifo64_writable)
+          (* src = "b64_b32.py:92" *)
+          casez (fifo64_w_rdy)
+            /* src = "b64_b32.py:92" */
             1'h1:
-                \$next\fsm_state  = 2'h0;
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\fifo64_din  = fifo64_din;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \fifo64_w_data$next  = fifo64_w_data;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
-                      \$next\fifo64_din  = data_in;
+                      \fifo64_w_data$next  = data_in;
                 endcase
           endcase
+      /* src = "b64_b32.py:91" */
+      /* \nmigen.decoding  = "HANDLE_REG/2" */
       2'h2:
-          casez (fifo64_writable)
+          (* src = "b64_b32.py:92" *)
+          casez (fifo64_w_rdy)
+            /* src = "b64_b32.py:92" */
             1'h1:
-                \$next\fifo64_din  = \reg ;
+                \fifo64_w_data$next  = \reg ;
           endcase
     endcase
   end
   always @* begin
-    \$next\reg  = \reg ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \reg$next  = \reg ;
+    (* src = "b64_b32.py:65" *)
     casez (fsm_state)
+      /* src = "b64_b32.py:68" */
+      /* \nmigen.decoding  = "FIFO64_IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "b64_b32.py:75" */
+      /* \nmigen.decoding  = "FIFO64_FILL/1" */
       2'h1:
+          (* src = "b64_b32.py:76" *)
           casez (valid_in)
+            /* src = "b64_b32.py:76" */
             1'h1:
-                casez (fifo64_writable)
+                (* src = "b64_b32.py:77" *)
+                casez (fifo64_w_rdy)
+                  /* src = "b64_b32.py:77" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\reg  = data_in;
+                  /* src = "b64_b32.py:84" */
+                  default:
+                      \reg$next  = data_in;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\reg  = 64'h0000000000000000;
+          \reg$next  = 64'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\fifo32_din  = fifo32_din;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \fifo32_w_data$next  = fifo32_w_data;
+    (* src = "b64_b32.py:102" *)
     casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
       1'h0:
-          casez ({ fifo32_writable, \$6  })
-            2'bz1:
-                \$next\fifo32_din  = fifo64_dout[63:32];
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$6  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fifo32_w_data$next  = fifo64_r_data[63:32];
           endcase
+      /* src = "b64_b32.py:116" */
+      /* \nmigen.decoding  = "PART2/1" */
       1'h1:
-          casez (fifo32_writable)
+          (* src = "b64_b32.py:118" *)
+          casez (fifo32_w_rdy)
+            /* src = "b64_b32.py:118" */
             1'h1:
-                \$next\fifo32_din  = buff;
+                \fifo32_w_data$next  = buff;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \buff$next  = buff;
+    (* src = "b64_b32.py:102" *)
     casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
       1'h0:
-          casez ({ fifo32_writable, \$12  })
-            2'bz1:
-                \$next\buff  = fifo64_dout[31:0];
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$12  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \buff$next  = fifo64_r_data[31:0];
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\buff  = 32'd0;
+          \buff$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\fifo32_we  = fifo32_we;
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \fifo32_w_en$next  = fifo32_w_en;
+    (* src = "b64_b32.py:102" *)
     casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
       1'h0:
-          casez ({ fifo32_writable, \$18  })
-            2'bz1:
-                \$next\fifo32_we  = 1'h1;
-            2'b1z:
-                \$next\fifo32_we  = 1'h0;
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$18  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fifo32_w_en$next  = 1'h1;
+            /* src = "b64_b32.py:113" */
+            2'b1?:
+                \fifo32_w_en$next  = 1'h0;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
+      1'h1:
+          \fifo32_w_en$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \fifo64_r_en$next  = fifo64_r_en;
+    (* src = "b64_b32.py:102" *)
+    casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
+      1'h0:
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$24  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fifo64_r_en$next  = 1'h1;
+          endcase
+      /* src = "b64_b32.py:116" */
+      /* \nmigen.decoding  = "PART2/1" */
+      1'h1:
+          \fifo64_r_en$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
+      1'h1:
+          \fifo64_r_en$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$211 ) begin end
+    \fsm_state$1$next  = \fsm_state$1 ;
+    (* src = "b64_b32.py:102" *)
+    casez (\fsm_state$1 )
+      /* src = "b64_b32.py:104" */
+      /* \nmigen.decoding  = "PART1/0" */
+      1'h0:
+          (* src = "b64_b32.py:105" *)
+          casez ({ fifo32_w_rdy, \$30  })
+            /* src = "b64_b32.py:105" */
+            2'b?1:
+                \fsm_state$1$next  = 1'h1;
+          endcase
+      /* src = "b64_b32.py:116" */
+      /* \nmigen.decoding  = "PART2/1" */
+      1'h1:
+          (* src = "b64_b32.py:118" *)
+          casez (fifo32_w_rdy)
+            /* src = "b64_b32.py:118" */
+            1'h1:
+                \fsm_state$1$next  = 1'h0;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\fifo32_we  = 1'h0;
+          \fsm_state$1$next  = 1'h0;
     endcase
   end
-  assign fifo32_re = \$next\fifo32_re ;
-  assign data_out = \$next\data_out ;
-  assign valid_out = \$next\valid_out ;
+  assign fifo32_r_en = \$32 ;
+  assign data_out = fifo32_r_data;
+  assign valid_out = fifo32_r_rdy;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter" *)
+module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$212  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [29:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [29:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [4:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [5:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [29:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [55:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 30'h00000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [29:0] enc_in;
   reg [29:0] enc_in = 30'h00000000;
-  (* init = 5'h00 *)
+  (* src = "converter.py:66" *)
+  reg [29:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [4:0] enc_in_ctr;
   reg [4:0] enc_in_ctr = 5'h00;
+  (* src = "converter.py:67" *)
+  reg [4:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "converter.py:61" *)
   input [5:0] enc_out_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [5:0] enc_out_ctr_reg = 6'h00;
-  (* init = 30'h00000000 *)
+  (* src = "converter.py:95" *)
+  reg [5:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [29:0] enc_out_latch = 30'h00000000;
-  (* init = 56'h00000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [29:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [55:0] enc_out_reg = 56'h00000000000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [55:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -3196,7 +3969,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[55:30];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[55:30];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 5'h1e;
@@ -3206,1405 +3979,2102 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[29:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 30'h00000000;
+          \enc_out_latch$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
-          endcase
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
+          endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 56'h00000000000000;
+          \enc_out_reg$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 6'h00;
+          \enc_out_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[29:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[29:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 30'h00000000;
+          \enc_in$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[4:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[4:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 5'h1e;
+                      \enc_in_ctr$next  = 5'h1e;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [4:0];
+                            \enc_in_ctr$next  = \$52 [4:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 5'h1e;
+          \enc_in_ctr$next  = 5'h1e;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 5'h00;
+          \enc_in_ctr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$212 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo" *)
+module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$213  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [29:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [29:0] enc_out;
+  wire [29:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 9'h1fb;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$6  fifo (
+    close_full <= \close_full$next ;
+  \fifo$5  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 36'h000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 30'h00000000;
-    \$next\enc_out  = fifo_dout[29:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = fifo_dout[34:30];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[35];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$213 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[35];
+  assign enc_out_ctr = fifo_r_data[34:30];
+  assign enc_out = fifo_r_data[29:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, valid_in);
-  wire [13:0] \$10 ;
-  wire [12:0] \$11 ;
-  wire [13:0] \$13 ;
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.difference" *)
+module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_in, end_in, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$214  = 0;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$12 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$14 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$15 ;
-  wire [12:0] \$16 ;
-  wire [13:0] \$18 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$6 ;
-  wire [12:0] \$8 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$3 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$4 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$5 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "difference.py:98" *)
+  wire [13:0] \$8 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$9 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$11 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$2 ;
+  wire [11:0] \predic_in$2 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:61" *)
   output [12:0] \val_out$3 ;
   reg [12:0] \val_out$3  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$3$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$4 ;
   reg [12:0] \val_out$4  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$4$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$5 ;
   reg [12:0] \val_out$5  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$5$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
-  assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$9  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$12  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$2 ;
+  assign \$15  = \diff$11  - (* src = "difference.py:98" *) 1'h1;
+  assign \$6  = pixel_in - (* src = "difference.py:91" *) predic_in;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$5  <= \$next\val_out$5 ;
+    \val_out$5  <= \val_out$5$next ;
   always @(posedge clk)
-      \val_out$4  <= \$next\val_out$4 ;
+    \val_out$3  <= \val_out$3$next ;
   always @(posedge clk)
-      \val_out$3  <= \$next\val_out$3 ;
+    \val_out$4  <= \val_out$4$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$6 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$6 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$3  = \val_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    \val_out$4$next  = \val_out$4 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$3  = \$8 ;
+          \val_out$4$next  = \$9 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$3  = 13'h0000;
+          \val_out$4$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    \diff$11  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$11  = \$12 ;
     endcase
   end
   always @* begin
-    \$next\val_out$4  = \val_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    \val_out$3$next  = \val_out$3 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$4  = \$10 [12:0];
+          \val_out$3$next  = \diff$11 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$4  = 13'h0000;
+          \val_out$3$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$5  = \val_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    \val_out$5$next  = \val_out$5 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$5  = \$15 [12:0];
+          \val_out$5$next  = \$15 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$5  = 13'h0000;
+          \val_out$5$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$10  = \$13 ;
-  assign \$15  = \$18 ;
+  assign \$8  = \$9 ;
+  assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.dma_axi_lite" *)
 (* generator = "nMigen" *)
-module dma_axi_lite(s_axi_wi___awvalid, s_axi_ri___araddr, in1, in2, in3, in4, in5, in6, in7, in8, in9, s_axi_ri___rready, s_axi_wi___awaddr, s_axi_wi___wvalid, s_axi_wi___wdata, s_axi_wi___wstrb, s_axi_wi___bready, rst, clk, read_addr, write_addr, start, s_axi_ro___arready, s_axi_ro___rvalid, s_axi_wo___awready, s_axi_wo___wready, s_axi_wo___bvalid, s_axi_ro___rdata, s_axi_ro___rresp, s_axi_wo___bresp, s_axi_ri___arvalid);
-  wire [31:0] \$1 ;
-  wire [31:0] \$3 ;
-  (* src = "dma_axi_lite.py:110" *)
-  reg [31:0] \$next\addr_v ;
-  (* src = "dma_axi_lite.py:112" *)
-  reg \$next\arready_v ;
-  (* src = "dma_axi_lite.py:115" *)
-  reg \$next\awready_v ;
-  (* src = "dma_axi_lite.py:134" *)
-  reg \$next\basic_enable ;
-  (* src = "dma_axi_lite.py:135" *)
-  reg [3:0] \$next\basic_index ;
-  (* src = "dma_axi_lite.py:122" *)
-  reg [1:0] \$next\bresp_v ;
-  (* src = "dma_axi_lite.py:117" *)
-  reg \$next\bvalid_v ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "dma_axi_lite.py:119" *)
-  reg [31:0] \$next\rdata_v ;
-  (* src = "dma_axi_lite.py:59" *)
-  reg [31:0] \$next\read_addr ;
-  (* src = "dma_axi_lite.py:120" *)
-  reg [1:0] \$next\rresp_v ;
-  (* src = "dma_axi_lite.py:113" *)
-  reg \$next\rvalid_v ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro___arready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\s_axi_ro___rdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_ro___rresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro___rvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo___awready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_wo___bresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo___bvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo___wready ;
-  (* src = "dma_axi_lite.py:63" *)
-  reg [31:0] \$next\start ;
-  (* src = "dma_axi_lite.py:125" *)
-  reg [31:0] \$next\wdata_v ;
-  (* src = "dma_axi_lite.py:116" *)
-  reg \$next\wready_v ;
-  (* src = "dma_axi_lite.py:60" *)
-  reg [31:0] \$next\write_addr ;
-  (* src = "dma_axi_lite.py:126" *)
-  reg [3:0] \$next\wstrb_v ;
-  (* init = 32'd0 *)
+(* \nmigen.hierarchy  = "top.dma_axi_lite" *)
+module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_addr, start, full_rst, full_clk, s_axi_ri___arvalid, s_axi_wi___awvalid, s_axi_ri___araddr, s_axi_ri___rready, s_axi_wi___awaddr, s_axi_wi___wvalid, s_axi_wi___wdata, s_axi_wi___wstrb
+, s_axi_wi___bready, s_axi_ro___arready, s_axi_ro___rvalid, s_axi_wo___awready, s_axi_wo___wready, s_axi_wo___bvalid, s_axi_ro___rdata, s_axi_ro___rresp, s_axi_wo___bresp, in1);
+  reg \$auto$verilog_backend.cc:2184:dump_module$215  = 0;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$1 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$11 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$13 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$15 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$17 ;
+  (* src = "dma_axi_lite.py:225" *)
+  wire [31:0] \$19 ;
+  (* src = "dma_axi_lite.py:248" *)
+  wire [31:0] \$21 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$23 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$25 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$27 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$29 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$3 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$31 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$33 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$35 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$37 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$39 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$41 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$43 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$45 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$47 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$49 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$5 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$51 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$7 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$9 ;
   (* src = "dma_axi_lite.py:110" *)
   reg [31:0] addr_v = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "dma_axi_lite.py:110" *)
+  reg [31:0] \addr_v$next ;
   (* src = "dma_axi_lite.py:112" *)
   reg arready_v = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "dma_axi_lite.py:112" *)
+  reg \arready_v$next ;
   (* src = "dma_axi_lite.py:115" *)
   reg awready_v = 1'h0;
+  (* src = "dma_axi_lite.py:115" *)
+  reg \awready_v$next ;
   (* src = "dma_axi_lite.py:134" *)
   wire basic_enable;
   (* src = "dma_axi_lite.py:135" *)
   wire [3:0] basic_index;
-  (* init = 2'h0 *)
   (* src = "dma_axi_lite.py:122" *)
   reg [1:0] bresp_v = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "dma_axi_lite.py:122" *)
+  reg [1:0] \bresp_v$next ;
   (* src = "dma_axi_lite.py:117" *)
   reg bvalid_v = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "dma_axi_lite.py:117" *)
+  reg \bvalid_v$next ;
+  (* src = "dma_axi_lite.py:207" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "dma_axi_lite.py:207" *)
+  reg [2:0] \fsm_state$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
   (* src = "dma_axi_lite.py:66" *)
   input [31:0] in1;
+  wire [31:0] in1;
   (* src = "dma_axi_lite.py:67" *)
   input [31:0] in2;
+  wire [31:0] in2;
   (* src = "dma_axi_lite.py:68" *)
   input [31:0] in3;
+  wire [31:0] in3;
   (* src = "dma_axi_lite.py:69" *)
   input [31:0] in4;
+  wire [31:0] in4;
   (* src = "dma_axi_lite.py:70" *)
   input [31:0] in5;
+  wire [31:0] in5;
   (* src = "dma_axi_lite.py:71" *)
   input [31:0] in6;
+  wire [31:0] in6;
   (* src = "dma_axi_lite.py:72" *)
   input [31:0] in7;
+  wire [31:0] in7;
   (* src = "dma_axi_lite.py:73" *)
   input [31:0] in8;
+  wire [31:0] in8;
   (* src = "dma_axi_lite.py:74" *)
   input [31:0] in9;
-  (* init = 32'd0 *)
+  wire [31:0] in9;
   (* src = "dma_axi_lite.py:119" *)
   reg [31:0] rdata_v = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "dma_axi_lite.py:119" *)
+  reg [31:0] \rdata_v$next ;
   (* src = "dma_axi_lite.py:59" *)
   output [31:0] read_addr;
   reg [31:0] read_addr = 32'd0;
-  (* init = 2'h0 *)
+  (* src = "dma_axi_lite.py:59" *)
+  reg [31:0] \read_addr$next ;
   (* src = "dma_axi_lite.py:120" *)
   reg [1:0] rresp_v = 2'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* init = 1'h0 *)
+  (* src = "dma_axi_lite.py:120" *)
+  reg [1:0] \rresp_v$next ;
   (* src = "dma_axi_lite.py:113" *)
   reg rvalid_v = 1'h0;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "dma_axi_lite.py:113" *)
+  reg \rvalid_v$next ;
+  (* src = "dma_axi_lite.py:54" *)
   input [31:0] s_axi_ri___araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri___araddr;
+  (* src = "dma_axi_lite.py:54" *)
   input s_axi_ri___arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri___arvalid;
+  (* src = "dma_axi_lite.py:54" *)
   input s_axi_ri___rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri___rready;
+  (* src = "dma_axi_lite.py:53" *)
   output s_axi_ro___arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro___arready;
+  (* src = "dma_axi_lite.py:53" *)
   output [31:0] s_axi_ro___rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro___rdata;
+  (* src = "dma_axi_lite.py:53" *)
   output [1:0] s_axi_ro___rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro___rresp;
+  (* src = "dma_axi_lite.py:53" *)
   output s_axi_ro___rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro___rvalid;
+  (* src = "dma_axi_lite.py:56" *)
   input [31:0] s_axi_wi___awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi___awaddr;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___awvalid;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___bready;
+  (* src = "dma_axi_lite.py:56" *)
   input [31:0] s_axi_wi___wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi___wdata;
+  (* src = "dma_axi_lite.py:56" *)
   input [3:0] s_axi_wi___wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi___wstrb;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___wvalid;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo___awready;
+  (* src = "dma_axi_lite.py:55" *)
   output [1:0] s_axi_wo___bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo___bresp;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo___bvalid;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___wready;
-  (* init = 32'd0 *)
+  wire s_axi_wo___wready;
   (* src = "dma_axi_lite.py:63" *)
   output [31:0] start;
   reg [31:0] start = 32'd0;
+  (* src = "dma_axi_lite.py:63" *)
+  reg [31:0] \start$next ;
   (* src = "dma_axi_lite.py:125" *)
-  wire [31:0] wdata_v;
-  (* init = 1'h0 *)
+  reg [31:0] wdata_v;
   (* src = "dma_axi_lite.py:116" *)
   reg wready_v = 1'h0;
-  (* init = 32'd0 *)
+  (* src = "dma_axi_lite.py:116" *)
+  reg \wready_v$next ;
   (* src = "dma_axi_lite.py:60" *)
   output [31:0] write_addr;
   reg [31:0] write_addr = 32'd0;
+  (* src = "dma_axi_lite.py:60" *)
+  reg [31:0] \write_addr$next ;
   (* src = "dma_axi_lite.py:126" *)
-  wire [3:0] wstrb_v;
-  assign \$1  = s_axi_ri___araddr >>> (* src = "dma_axi_lite.py:225" *) 2'h2;
-  assign \$3  = s_axi_wi___awaddr >>> (* src = "dma_axi_lite.py:248" *) 2'h2;
-  always @(posedge clk)
-      write_addr <= \$next\write_addr ;
-  always @(posedge clk)
-      read_addr <= \$next\read_addr ;
-  always @(posedge clk)
-      bresp_v <= \$next\bresp_v ;
-  always @(posedge clk)
-      wready_v <= \$next\wready_v ;
-  always @(posedge clk)
-      awready_v <= \$next\awready_v ;
-  always @(posedge clk)
-      rresp_v <= \$next\rresp_v ;
-  always @(posedge clk)
-      rdata_v <= \$next\rdata_v ;
-  always @(posedge clk)
-      arready_v <= \$next\arready_v ;
-  always @(posedge clk)
-      addr_v <= \$next\addr_v ;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      bvalid_v <= \$next\bvalid_v ;
-  always @(posedge clk)
-      rvalid_v <= \$next\rvalid_v ;
-  always @(posedge clk)
-      start <= \$next\start ;
+  reg [3:0] wstrb_v;
+  assign \$9  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$11  = \$7  & (* src = "dma_axi_lite.py:257" *) \$9 ;
+  assign \$13  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$15  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$17  = \$13  & (* src = "dma_axi_lite.py:257" *) \$15 ;
+  assign \$1  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$19  = s_axi_ri___araddr >>> (* src = "dma_axi_lite.py:225" *) 2'h2;
+  assign \$21  = s_axi_wi___awaddr >>> (* src = "dma_axi_lite.py:248" *) 2'h2;
+  assign \$23  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$25  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$27  = \$23  & (* src = "dma_axi_lite.py:257" *) \$25 ;
+  assign \$29  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$31  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$33  = \$29  & (* src = "dma_axi_lite.py:257" *) \$31 ;
+  assign \$35  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$37  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$3  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$39  = \$35  & (* src = "dma_axi_lite.py:257" *) \$37 ;
+  assign \$41  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$43  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$45  = \$41  & (* src = "dma_axi_lite.py:257" *) \$43 ;
+  assign \$47  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$49  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$51  = \$47  & (* src = "dma_axi_lite.py:257" *) \$49 ;
+  assign \$5  = \$1  & (* src = "dma_axi_lite.py:257" *) \$3 ;
+  assign \$7  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  always @(posedge full_clk)
+    write_addr <= \write_addr$next ;
+  always @(posedge full_clk)
+    read_addr <= \read_addr$next ;
+  always @(posedge full_clk)
+    bresp_v <= \bresp_v$next ;
+  always @(posedge full_clk)
+    wready_v <= \wready_v$next ;
+  always @(posedge full_clk)
+    awready_v <= \awready_v$next ;
+  always @(posedge full_clk)
+    rresp_v <= \rresp_v$next ;
+  always @(posedge full_clk)
+    rdata_v <= \rdata_v$next ;
+  always @(posedge full_clk)
+    arready_v <= \arready_v$next ;
+  always @(posedge full_clk)
+    addr_v <= \addr_v$next ;
+  always @(posedge full_clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge full_clk)
+    bvalid_v <= \bvalid_v$next ;
+  always @(posedge full_clk)
+    rvalid_v <= \rvalid_v$next ;
+  always @(posedge full_clk)
+    start <= \start$next ;
   always @* begin
-    \$next\wdata_v  = 32'd0;
-    \$next\wdata_v  = 32'd0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    wdata_v = 32'd0;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$5 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
-                \$next\wdata_v  = s_axi_wi___wdata;
+                wdata_v = s_axi_wi___wdata;
           endcase
     endcase
   end
   always @* begin
-    \$next\wstrb_v  = 4'h0;
-    \$next\wstrb_v  = 4'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    wstrb_v = 4'h0;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$11 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
-                \$next\wstrb_v  = s_axi_wi___wstrb;
+                wstrb_v = s_axi_wi___wstrb;
           endcase
     endcase
   end
   always @* begin
-    \$next\rresp_v  = rresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \rresp_v$next  = rresp_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:234" *)
           casez (basic_enable)
+            /* src = "dma_axi_lite.py:234" */
             1'h1:
-                \$next\rresp_v  = 2'h0;
-            1'hz:
-                \$next\rresp_v  = 2'h3;
+                \rresp_v$next  = 2'h0;
+            /* src = "dma_axi_lite.py:237" */
+            default:
+                \rresp_v$next  = 2'h3;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\rresp_v  = 2'h0;
+          \rresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\awready_v  = awready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \awready_v$next  = awready_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       3'h2:
-          \$next\awready_v  = 1'h1;
+          \awready_v$next  = 1'h1;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wready_v  = wready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \wready_v$next  = wready_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          \$next\wready_v  = 1'h1;
+        begin
+          \wready_v$next  = 1'h1;
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$27 )
+            /* src = "dma_axi_lite.py:257" */
+            1'h1:
+                \wready_v$next  = 1'h0;
+          endcase
+        end
+      /* src = "dma_axi_lite.py:272" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/5" */
       3'h5:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bresp_v  = bresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \bresp_v$next  = bresp_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$33 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
-                      \$next\bresp_v  = 2'h0;
+                      \bresp_v$next  = 2'h0;
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
                     end
-                  1'hz:
-                      \$next\bresp_v  = 2'h3;
+                  /* src = "dma_axi_lite.py:267" */
+                  default:
+                      \bresp_v$next  = 2'h3;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\bresp_v  = 2'h0;
+          \bresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\read_addr  = read_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \read_addr$next  = read_addr;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$39 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [7:0] = wdata_v[7:0];
+                                  \read_addr$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [15:8] = wdata_v[15:8];
+                                  \read_addr$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [23:16] = wdata_v[23:16];
+                                  \read_addr$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [31:24] = wdata_v[31:24];
+                                  \read_addr$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\read_addr  = 32'd0;
+          \read_addr$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\write_addr  = write_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \write_addr$next  = write_addr;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$45 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [7:0] = wdata_v[7:0];
+                                  \write_addr$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [15:8] = wdata_v[15:8];
+                                  \write_addr$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [23:16] = wdata_v[23:16];
+                                  \write_addr$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [31:24] = wdata_v[31:24];
+                                  \write_addr$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\write_addr  = 32'd0;
+          \write_addr$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \start$next  = start;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$51 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [7:0] = wdata_v[7:0];
+                                  \start$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [15:8] = wdata_v[15:8];
+                                  \start$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [23:16] = wdata_v[23:16];
+                                  \start$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [31:24] = wdata_v[31:24];
+                                  \start$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\start  = 32'd0;
+          \start$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\s_axi_ro___arready  = 1'h0;
-    \$next\s_axi_ro___arready  = arready_v;
-  end
-  always @* begin
-    \$next\s_axi_ro___rvalid  = 1'h0;
-    \$next\s_axi_ro___rvalid  = rvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_wo___awready  = 1'h0;
-    \$next\s_axi_wo___awready  = awready_v;
-  end
-  always @* begin
-    \$next\basic_enable  = 1'h0;
-    \$next\basic_enable  = addr_v[10];
-  end
-  always @* begin
-    \$next\s_axi_wo___wready  = 1'h0;
-    \$next\s_axi_wo___wready  = wready_v;
-  end
-  always @* begin
-    \$next\s_axi_wo___bvalid  = 1'h0;
-    \$next\s_axi_wo___bvalid  = bvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_ro___rdata  = 32'd0;
-    \$next\s_axi_ro___rdata  = rdata_v;
-  end
-  always @* begin
-    \$next\s_axi_ro___rresp  = 2'h0;
-    \$next\s_axi_ro___rresp  = rresp_v;
-  end
-  always @* begin
-    \$next\s_axi_wo___bresp  = 2'h0;
-    \$next\s_axi_wo___bresp  = bresp_v;
-  end
-  always @* begin
-    \$next\basic_index  = 4'h0;
-    \$next\basic_index  = addr_v[3:0];
-  end
-  always @* begin
-    \$next\rvalid_v  = rvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \rvalid_v$next  = rvalid_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:240" *)
           casez (s_axi_ri___rready)
+            /* src = "dma_axi_lite.py:240" */
             1'h1:
-                \$next\rvalid_v  = 1'h1;
+                \rvalid_v$next  = 1'h1;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bvalid_v  = bvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \bvalid_v$next  = bvalid_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
+      3'h4:
+          /* empty */;
+      /* src = "dma_axi_lite.py:272" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/5" */
       3'h5:
+          (* src = "dma_axi_lite.py:275" *)
           casez (s_axi_wi___bready)
+            /* src = "dma_axi_lite.py:275" */
             1'h1:
-                \$next\bvalid_v  = 1'h1;
+                \bvalid_v$next  = 1'h1;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
+          (* src = "dma_axi_lite.py:216" *)
           casez ({ s_axi_wi___awvalid, s_axi_ri___arvalid })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
-          endcase
+            /* src = "dma_axi_lite.py:216" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "dma_axi_lite.py:218" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
+          endcase
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       3'h1:
-          \$next\fsm_state  = 3'h3;
+          \fsm_state$next  = 3'h3;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:240" *)
           casez (s_axi_ri___rready)
+            /* src = "dma_axi_lite.py:240" */
             1'h1:
-                \$next\fsm_state  = 3'h0;
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       3'h2:
-          \$next\fsm_state  = 3'h4;
+          \fsm_state$next  = 3'h4;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$17 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
-                \$next\fsm_state  = 3'h5;
+                \fsm_state$next  = 3'h5;
           endcase
+      /* src = "dma_axi_lite.py:272" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/5" */
       3'h5:
+          (* src = "dma_axi_lite.py:275" *)
           casez (s_axi_wi___bready)
+            /* src = "dma_axi_lite.py:275" */
             1'h1:
-                \$next\fsm_state  = 3'h0;
+                \fsm_state$next  = 3'h0;
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\addr_v  = addr_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \addr_v$next  = addr_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       3'h1:
-          \$next\addr_v  = \$1 ;
+          \addr_v$next  = \$19 ;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       3'h2:
-          \$next\addr_v  = \$3 ;
+          \addr_v$next  = \$21 ;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\addr_v  = 32'd0;
+          \addr_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\arready_v  = arready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \arready_v$next  = arready_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       3'h1:
-          \$next\arready_v  = 1'h1;
+          \arready_v$next  = 1'h1;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdata_v  = rdata_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$215 ) begin end
+    \rdata_v$next  = rdata_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:234" *)
           casez (basic_enable)
+            /* src = "dma_axi_lite.py:234" */
             1'h1:
+                (* src = "dma_axi_lite.py:143" *)
                 casez (basic_index)
+                  /* src = "dma_axi_lite.py:144" */
                   4'h0:
-                      \$next\rdata_v  = read_addr;
+                      \rdata_v$next  = read_addr;
+                  /* src = "dma_axi_lite.py:146" */
                   4'h1:
-                      \$next\rdata_v  = write_addr;
+                      \rdata_v$next  = write_addr;
+                  /* src = "dma_axi_lite.py:148" */
                   4'h2:
-                      \$next\rdata_v  = start;
+                      \rdata_v$next  = start;
+                  /* src = "dma_axi_lite.py:150" */
                   4'h3:
-                      \$next\rdata_v  = in1;
+                      \rdata_v$next  = in1;
+                  /* src = "dma_axi_lite.py:152" */
                   4'h4:
-                      \$next\rdata_v  = in2;
+                      \rdata_v$next  = in2;
+                  /* src = "dma_axi_lite.py:154" */
                   4'h5:
-                      \$next\rdata_v  = in3;
+                      \rdata_v$next  = in3;
+                  /* src = "dma_axi_lite.py:156" */
                   4'h6:
-                      \$next\rdata_v  = in4;
+                      \rdata_v$next  = in4;
+                  /* src = "dma_axi_lite.py:158" */
                   4'h7:
-                      \$next\rdata_v  = in5;
+                      \rdata_v$next  = in5;
+                  /* src = "dma_axi_lite.py:160" */
                   4'h8:
-                      \$next\rdata_v  = in6;
+                      \rdata_v$next  = in6;
+                  /* src = "dma_axi_lite.py:162" */
                   4'h9:
-                      \$next\rdata_v  = in7;
+                      \rdata_v$next  = in7;
+                  /* src = "dma_axi_lite.py:164" */
                   4'ha:
-                      \$next\rdata_v  = in8;
+                      \rdata_v$next  = in8;
+                  /* src = "dma_axi_lite.py:166" */
                   4'hb:
-                      \$next\rdata_v  = in9;
+                      \rdata_v$next  = in9;
                 endcase
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\rdata_v  = 32'd0;
+          \rdata_v$next  = 32'd0;
     endcase
   end
-  assign s_axi_wo___bresp = \$next\s_axi_wo___bresp ;
-  assign s_axi_ro___rresp = \$next\s_axi_ro___rresp ;
-  assign s_axi_ro___rdata = \$next\s_axi_ro___rdata ;
-  assign s_axi_wo___bvalid = \$next\s_axi_wo___bvalid ;
-  assign s_axi_wo___wready = \$next\s_axi_wo___wready ;
-  assign s_axi_wo___awready = \$next\s_axi_wo___awready ;
-  assign s_axi_ro___rvalid = \$next\s_axi_ro___rvalid ;
-  assign s_axi_ro___arready = \$next\s_axi_ro___arready ;
-  assign basic_index = \$next\basic_index ;
-  assign basic_enable = \$next\basic_enable ;
-  assign wstrb_v = \$next\wstrb_v ;
-  assign wdata_v = \$next\wdata_v ;
+  assign s_axi_wo___bresp = bresp_v;
+  assign s_axi_ro___rresp = rresp_v;
+  assign s_axi_ro___rdata = rdata_v;
+  assign s_axi_wo___bvalid = bvalid_v;
+  assign s_axi_wo___wready = wready_v;
+  assign s_axi_wo___awready = awready_v;
+  assign s_axi_ro___rvalid = rvalid_v;
+  assign s_axi_ro___arready = arready_v;
+  assign basic_index = addr_v[3:0];
+  assign basic_enable = addr_v[10];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, enc_ctr, \enc_out$3 , \enc_ctr$4 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$4 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$3 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$15 ;
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.encode" *)
+module encode(rst, val_in, \val_in$1 , ssss, \ssss$2 , valid_in, end_in, enc_out, \enc_out$3 , enc_ctr, \enc_ctr$4 , valid_out, end_out, clk);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$6 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$25 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$18 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$16 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$7 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$17 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$8 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$14 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$5 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire \U$$1_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$21 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$4 ;
+  wire [4:0] \enc_ctr$4 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$20 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$3 ;
+  wire [27:0] \enc_out$3 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$15 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$10 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$25 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$6 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$26 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$19 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$18 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$7 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$7 ;
+  wire [4:0] \ssss$2 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$17 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$8 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$14 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$5 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$9 ;
-  \anonymous$3  \$13  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$12 ),
-    .enc_out(\enc_out$11 ),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$10 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$7 ),
-    .val_in(\val_in$8 ),
-    .valid_in(\valid_in$5 ),
-    .valid_out(\valid_out$9 )
-  );
-  \anonymous$4  \$22  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$21 ),
-    .enc_out(\enc_out$20 ),
-    .end_in(\end_in$15 ),
-    .rp_addr(\rp_addr$19 ),
-    .rp_data(\rp_data$18 ),
-    .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$17 ),
-    .valid_in(\valid_in$14 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -4621,488 +6091,348 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, enc_out, e
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$25 ;
-    _1_ <= \$next\mem_r_addr ;
-  end
-  assign \mem_r_data$26  = mem[_0_];
-  assign mem_r_data = mem[_1_];
-  always @* begin
-    \$next\val_in$8  = 12'h000;
-    \$next\val_in$8  = val_in;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$16  = 5'h00;
-    \$next\ssss$16  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$25  = 4'h0;
-    \$next\mem_r_addr$25  = \rp_addr$19 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$18  = 33'h000000000;
-    \$next\rp_data$18  = \mem_r_data$26 ;
-  end
-  always @* begin
-    \$next\enc_out$3  = 28'h0000000;
-    \$next\enc_out$3  = \enc_out$20 ;
-  end
-  always @* begin
-    \$next\enc_ctr$4  = 5'h00;
-    \$next\enc_ctr$4  = \enc_ctr$21 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$9 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$10 ;
-  end
-  always @* begin
-    \$next\valid_in$5  = 1'h0;
-    \$next\valid_in$5  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$11 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$12 ;
-  end
-  always @* begin
-    \$next\val_in$17  = 12'h000;
-    \$next\val_in$17  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$15  = 1'h0;
-    \$next\end_in$15  = end_in;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$6 ];
   end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$4  = \$next\enc_ctr$4 ;
-  assign \enc_out$3  = \$next\enc_out$3 ;
-  assign \rp_data$18  = \$next\rp_data$18 ;
-  assign \mem_r_addr$25  = \$next\mem_r_addr$25 ;
-  assign \ssss$16  = \$next\ssss$16 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \end_in$15  = \$next\end_in$15 ;
-  assign \val_in$17  = \$next\val_in$17 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \valid_in$5  = \$next\valid_in$5 ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign \val_in$8  = \$next\val_in$8 ;
+  assign mem_r_data = _0_;
+  assign \mem_r_data$7  = _1_;
+  \U$$0$2  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$3  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$4  = \U$$1_enc_ctr ;
+  assign \enc_out$3  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$7 ;
+  assign \mem_r_addr$6  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$2 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$216  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
-    .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
-    .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
-    .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
-  );
-  always @* begin
-    \$next\unbuffered_din  = 63'h0000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
+    .clk(clk),
+    .level(unbuffered_level),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
+    .rst(rst),
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
+  );
   always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$216 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$6 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo.fifo" *)
+module \fifo$5 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$217  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [35:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [35:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [35:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$7  unbuffered (
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [35:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [35:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$6  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 36'h000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$217 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.reader_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$8 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$11 ;
+(* \nmigen.hierarchy  = "top.reader_fifo.fifo" *)
+module \fifo$7 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$218  = 0;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire [5:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$15 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$16 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$18 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire [5:0] \$20 ;
-  wire \$22 ;
-  wire [5:0] \$24 ;
-  wire [5:0] \$25 ;
-  wire \$27 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$20 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$21 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$24 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [6:0] \$26 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [6:0] \$27 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$31 ;
-  wire \$33 ;
-  wire \$34 ;
-  wire \$37 ;
-  wire [6:0] \$39 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$35 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [6:0] \$37 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [6:0] \$38 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire [6:0] \$40 ;
-  wire \$42 ;
-  wire \$44 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire \$49 ;
-  wire \$52 ;
-  wire [6:0] \$54 ;
-  wire [6:0] \$55 ;
-  wire [5:0] \$6 ;
-  wire [5:0] \$7 ;
-  wire \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [4:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [64:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [5:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [4:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [4:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [4:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [64:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [4:0] consume = 5'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [64:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [64:0] dout;
-  (* init = 6'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [4:0] \consume$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [5:0] level;
   reg [5:0] level = 6'h00;
-  (* init = 5'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [5:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [4:0] produce = 5'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [4:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [64:0] rdport_storage_r_data;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [4:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [64:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$9  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$11  = we & (* src = "nmigen/lib/fifo.py:161" *) \$9 ;
-  assign \$13  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$15  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$17  = \$13  & (* src = "nmigen/lib/fifo.py:149" *) \$15 ;
-  assign \$20  = produce + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$22  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$25  = consume + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$27  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 6'h20;
-  assign \$29  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$31  = \$27  & (* src = "nmigen/lib/fifo.py:149" *) \$29 ;
-  assign \$34  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$34 ;
-  assign \$37  = \$31  & (* src = "nmigen/lib/fifo.py:177" *) \$33 ;
-  assign \$40  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$42  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$47  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$45  & (* src = "nmigen/lib/fifo.py:149" *) \$47 ;
-  assign \$44  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$49 ;
-  assign \$52  = \$42  & (* src = "nmigen/lib/fifo.py:179" *) \$44 ;
-  assign \$55  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:100" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [4:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [64:0] r_data;
+  wire [64:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [4:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [64:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [4:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [64:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [64:0] w_data;
+  wire [64:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [64:0] storage [31:0];
   initial begin
     storage[0] = 65'h00000000000000000;
@@ -5138,215 +6468,191 @@ module \fifo$8 (we, replace, re, rst, clk, writable, readable, dout, level, din)
     storage[30] = 65'h00000000000000000;
     storage[31] = 65'h00000000000000000;
   end
-  always @(posedge clk) begin
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = storage[\$next\rdport_storage_r_addr ];
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 5'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [4:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 65'h00000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$11 ;
-  end
+  always @(posedge full_clk) begin
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
+  end
+  assign storage_r_data = storage[storage_r_addr];
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 6'h20;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge full_clk)
+    level <= \level$next ;
+  always @(posedge full_clk)
+    consume <= \consume$next ;
+  always @(posedge full_clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\produce  = produce;
-    casez (\$17 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$218 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$19 [4:0];
+          \produce$next  = \$11 [4:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\produce  = 5'h00;
+          \produce$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 5'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 65'h00000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$218 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$13 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$24 [4:0];
+          \consume$next  = \$16 [4:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\consume  = 5'h00;
+          \consume$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\level  = level;
-    casez (\$37 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$218 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$24 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$39 [5:0];
+          \level$next  = \$27 [5:0];
     endcase
-    casez (\$52 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$35 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$54 [5:0];
+          \level$next  = \$38 [5:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\level  = 6'h00;
+          \level$next  = 6'h00;
     endcase
   end
-  assign \$6  = \$7 ;
-  assign \$19  = \$20 ;
-  assign \$24  = \$25 ;
-  assign \$39  = \$40 ;
-  assign \$54  = \$55 ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$11 ;
+  assign \$15  = \$16 ;
+  assign \$26  = \$27 ;
+  assign \$37  = \$38 ;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.writer_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$9 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$11 ;
+(* \nmigen.hierarchy  = "top.writer_fifo.fifo" *)
+module \fifo$8 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$219  = 0;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire [5:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$15 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [5:0] \$16 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$18 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire [5:0] \$20 ;
-  wire \$22 ;
-  wire [5:0] \$24 ;
-  wire [5:0] \$25 ;
-  wire \$27 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$20 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$21 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$24 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [6:0] \$26 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [6:0] \$27 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$31 ;
-  wire \$33 ;
-  wire \$34 ;
-  wire \$37 ;
-  wire [6:0] \$39 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$35 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [6:0] \$37 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [6:0] \$38 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire [6:0] \$40 ;
-  wire \$42 ;
-  wire \$44 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire \$49 ;
-  wire \$52 ;
-  wire [6:0] \$54 ;
-  wire [6:0] \$55 ;
-  wire [5:0] \$6 ;
-  wire [5:0] \$7 ;
-  wire \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [4:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [64:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [5:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [4:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [4:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [4:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [64:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [4:0] consume = 5'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [64:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [64:0] dout;
-  (* init = 6'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [4:0] \consume$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [5:0] level;
   reg [5:0] level = 6'h00;
-  (* init = 5'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [5:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [4:0] produce = 5'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [4:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [64:0] rdport_storage_r_data;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [4:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [64:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$9  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$11  = we & (* src = "nmigen/lib/fifo.py:161" *) \$9 ;
-  assign \$13  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$15  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$17  = \$13  & (* src = "nmigen/lib/fifo.py:149" *) \$15 ;
-  assign \$20  = produce + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$22  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$25  = consume + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$27  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 6'h20;
-  assign \$29  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$31  = \$27  & (* src = "nmigen/lib/fifo.py:149" *) \$29 ;
-  assign \$34  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$34 ;
-  assign \$37  = \$31  & (* src = "nmigen/lib/fifo.py:177" *) \$33 ;
-  assign \$40  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$42  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$47  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$45  & (* src = "nmigen/lib/fifo.py:149" *) \$47 ;
-  assign \$44  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$49 ;
-  assign \$52  = \$42  & (* src = "nmigen/lib/fifo.py:179" *) \$44 ;
-  assign \$55  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:100" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [4:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [64:0] r_data;
+  wire [64:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [4:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [64:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [4:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [64:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [64:0] w_data;
+  wire [64:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [64:0] storage [31:0];
   initial begin
     storage[0] = 65'h00000000000000000;
@@ -5382,214 +6688,190 @@ module \fifo$9 (we, replace, re, rst, clk, writable, readable, dout, level, din)
     storage[30] = 65'h00000000000000000;
     storage[31] = 65'h00000000000000000;
   end
-  always @(posedge clk) begin
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = storage[\$next\rdport_storage_r_addr ];
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 5'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [4:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 65'h00000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$11 ;
-  end
+  always @(posedge full_clk) begin
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
+  end
+  assign storage_r_data = storage[storage_r_addr];
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 6'h20;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge full_clk)
+    level <= \level$next ;
+  always @(posedge full_clk)
+    consume <= \consume$next ;
+  always @(posedge full_clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\produce  = produce;
-    casez (\$17 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$219 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$19 [4:0];
+          \produce$next  = \$11 [4:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\produce  = 5'h00;
+          \produce$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 5'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 65'h00000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$219 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$13 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$24 [4:0];
+          \consume$next  = \$16 [4:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\consume  = 5'h00;
+          \consume$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\level  = level;
-    casez (\$37 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$219 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$24 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$39 [5:0];
+          \level$next  = \$27 [5:0];
     endcase
-    casez (\$52 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$35 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$54 [5:0];
+          \level$next  = \$38 [5:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\level  = 6'h00;
+          \level$next  = 6'h00;
     endcase
   end
-  assign \$6  = \$7 ;
-  assign \$19  = \$20 ;
-  assign \$24  = \$25 ;
-  assign \$39  = \$40 ;
-  assign \$54  = \$55 ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$11 ;
+  assign \$15  = \$16 ;
+  assign \$26  = \$27 ;
+  assign \$37  = \$38 ;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.b64_b32.fifo32" *)
 (* generator = "nMigen" *)
-module fifo32(we, replace, re, rst, clk, writable, readable, dout, din);
-  wire \$11 ;
+(* \nmigen.hierarchy  = "top.b64_b32.fifo32" *)
+module fifo32(full_clk, w_rdy, w_data, w_en, r_rdy, r_data, r_en, full_rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$220  = 0;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire [2:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$15 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [2:0] \$16 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$18 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire [2:0] \$20 ;
-  wire \$22 ;
-  wire [2:0] \$24 ;
-  wire [2:0] \$25 ;
-  wire \$27 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$20 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$21 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$24 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [3:0] \$26 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [3:0] \$27 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$31 ;
-  wire \$33 ;
-  wire \$34 ;
-  wire \$37 ;
-  wire [3:0] \$39 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$35 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [3:0] \$37 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [3:0] \$38 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire [3:0] \$40 ;
-  wire \$42 ;
-  wire \$44 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire \$49 ;
-  wire \$52 ;
-  wire [3:0] \$54 ;
-  wire [3:0] \$55 ;
-  wire [2:0] \$6 ;
-  wire [2:0] \$7 ;
-  wire \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [1:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [31:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [2:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [1:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [1:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [1:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [31:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 2'h0 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [1:0] consume = 2'h0;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [31:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [31:0] dout;
-  (* init = 3'h0 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [1:0] \consume$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   reg [2:0] level = 3'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [2:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [1:0] produce = 2'h0;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [1:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [31:0] rdport_storage_r_data;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [1:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [31:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$9  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$11  = we & (* src = "nmigen/lib/fifo.py:161" *) \$9 ;
-  assign \$13  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$15  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$17  = \$13  & (* src = "nmigen/lib/fifo.py:149" *) \$15 ;
-  assign \$20  = produce + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$22  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$25  = consume + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$27  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 3'h4;
-  assign \$29  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$31  = \$27  & (* src = "nmigen/lib/fifo.py:149" *) \$29 ;
-  assign \$34  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$34 ;
-  assign \$37  = \$31  & (* src = "nmigen/lib/fifo.py:177" *) \$33 ;
-  assign \$40  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$42  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$47  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$45  & (* src = "nmigen/lib/fifo.py:149" *) \$47 ;
-  assign \$44  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$49 ;
-  assign \$52  = \$42  & (* src = "nmigen/lib/fifo.py:179" *) \$44 ;
-  assign \$55  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:100" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [1:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [31:0] r_data;
+  wire [31:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [1:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [31:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [1:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [31:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [31:0] w_data;
+  wire [31:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [31:0] storage [3:0];
   initial begin
     storage[0] = 32'd0;
@@ -5597,451 +6879,498 @@ module fifo32(we, replace, re, rst, clk, writable, readable, dout, din);
     storage[2] = 32'd0;
     storage[3] = 32'd0;
   end
-  always @(posedge clk) begin
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = storage[\$next\rdport_storage_r_addr ];
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 2'h0;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [1:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 32'd0;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$11 ;
-  end
+  always @(posedge full_clk) begin
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
+  end
+  assign storage_r_data = storage[storage_r_addr];
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 3'h4;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge full_clk)
+    level <= \level$next ;
+  always @(posedge full_clk)
+    consume <= \consume$next ;
+  always @(posedge full_clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\produce  = produce;
-    casez (\$17 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$220 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$19 [1:0];
+          \produce$next  = \$11 [1:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\produce  = 2'h0;
+          \produce$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 2'h0;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 32'd0;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$220 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$13 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$24 [1:0];
+          \consume$next  = \$16 [1:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\consume  = 2'h0;
+          \consume$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\level  = level;
-    casez (\$37 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$220 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$24 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$39 [2:0];
+          \level$next  = \$27 [2:0];
     endcase
-    casez (\$52 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$35 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$54 [2:0];
+          \level$next  = \$38 [2:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\level  = 3'h0;
+          \level$next  = 3'h0;
     endcase
   end
-  assign \$6  = \$7 ;
-  assign \$19  = \$20 ;
-  assign \$24  = \$25 ;
-  assign \$39  = \$40 ;
-  assign \$54  = \$55 ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$11 ;
+  assign \$15  = \$16 ;
+  assign \$26  = \$27 ;
+  assign \$37  = \$38 ;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.b64_b32.fifo64" *)
 (* generator = "nMigen" *)
-module fifo64(we, replace, re, rst, clk, writable, readable, dout, din);
-  wire \$11 ;
+(* \nmigen.hierarchy  = "top.b64_b32.fifo64" *)
+module fifo64(full_clk, w_en, w_rdy, w_data, r_rdy, r_data, r_en, full_rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$221  = 0;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire [1:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$15 ;
+  (* src = "nmigen/lib/fifo.py:157" *)
+  wire [1:0] \$16 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$18 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire [1:0] \$20 ;
-  wire \$22 ;
-  wire [1:0] \$24 ;
-  wire [1:0] \$25 ;
-  wire \$27 ;
-  wire \$29 ;
-  wire \$31 ;
-  wire \$33 ;
-  wire \$34 ;
-  wire \$37 ;
-  wire [2:0] \$39 ;
-  wire \$4 ;
-  wire [2:0] \$40 ;
-  wire \$42 ;
-  wire \$44 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire \$49 ;
-  wire \$52 ;
-  wire [2:0] \$54 ;
-  wire [2:0] \$55 ;
-  wire [1:0] \$6 ;
-  wire [1:0] \$7 ;
-  wire \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [63:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [1:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [63:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$20 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$21 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$24 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [2:0] \$26 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [2:0] \$27 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$31 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
+  wire \$35 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [2:0] \$37 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [2:0] \$38 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
+  wire \$4 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg consume = 1'h0;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [63:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [63:0] dout;
-  (* init = 2'h0 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg \consume$next ;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   reg [1:0] level = 2'h0;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [1:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg produce = 1'h0;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [63:0] rdport_storage_r_data;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [63:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$9  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$11  = we & (* src = "nmigen/lib/fifo.py:161" *) \$9 ;
-  assign \$13  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$15  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$17  = \$13  & (* src = "nmigen/lib/fifo.py:149" *) \$15 ;
-  assign \$20  = produce + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$22  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$25  = consume + (* src = "nmigen/lib/fifo.py:93" *) 1'h1;
-  assign \$27  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 2'h2;
-  assign \$29  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$31  = \$27  & (* src = "nmigen/lib/fifo.py:149" *) \$29 ;
-  assign \$34  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$34 ;
-  assign \$37  = \$31  & (* src = "nmigen/lib/fifo.py:177" *) \$33 ;
-  assign \$40  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$42  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$47  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$45  & (* src = "nmigen/lib/fifo.py:149" *) \$47 ;
-  assign \$44  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$49 ;
-  assign \$52  = \$42  & (* src = "nmigen/lib/fifo.py:179" *) \$44 ;
-  assign \$55  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:100" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [63:0] r_data;
+  wire [63:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [63:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [63:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [63:0] w_data;
+  wire [63:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [63:0] storage [1:0];
   initial begin
     storage[0] = 64'h0000000000000000;
     storage[1] = 64'h0000000000000000;
   end
-  always @(posedge clk) begin
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = storage[\$next\rdport_storage_r_addr ];
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 1'h0;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 64'h0000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$11 ;
-  end
+  always @(posedge full_clk) begin
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
+  end
+  assign storage_r_data = storage[storage_r_addr];
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 2'h2;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge full_clk)
+    level <= \level$next ;
+  always @(posedge full_clk)
+    consume <= \consume$next ;
+  always @(posedge full_clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\produce  = produce;
-    casez (\$17 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$221 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$19 [0];
+          \produce$next  = \$11 [0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\produce  = 1'h0;
+          \produce$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 1'h0;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 64'h0000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$221 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$13 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$24 [0];
+          \consume$next  = \$16 [0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\consume  = 1'h0;
+          \consume$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\level  = level;
-    casez (\$37 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$221 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$24 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$39 [1:0];
+          \level$next  = \$27 [1:0];
     endcase
-    casez (\$52 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$35 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$54 [1:0];
+          \level$next  = \$38 [1:0];
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\level  = 2'h0;
+          \level$next  = 2'h0;
     endcase
   end
-  assign \$6  = \$7 ;
-  assign \$19  = \$20 ;
-  assign \$24  = \$25 ;
-  assign \$39  = \$40 ;
-  assign \$54  = \$55 ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$11 ;
+  assign \$15  = \$16 ;
+  assign \$26  = \$27 ;
+  assign \$37  = \$38 ;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_out, data_out_ctr, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.top.fix_0xff" *)
+module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_out, end_out, data_out_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$222  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -6113,449 +7442,673 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, end_out, data_ou
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.fix_0xff2" *)
 (* generator = "nMigen" *)
-module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, data_out, o_busy, end_out, i_busy);
+(* \nmigen.hierarchy  = "top.top.fix_0xff2" *)
+module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$223  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -6668,24 +8221,24 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -6696,1061 +8249,1591 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
-              begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
-          endcase
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
+          endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$223 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.force_end" *)
+module force_end(rst, allowed_cycles, valid_in, fend, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$224  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$224 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$224 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$224 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.top.integration_3.vbits_to_cbits.input_handler" *)
+module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$225  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [107:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [7:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [7:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [7:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [7:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [6:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [6:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [76:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [29:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [4:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [4:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [29:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [6:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 7'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [6:0] buff_consum;
   reg [6:0] buff_consum = 7'h00;
-  (* init = 7'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [6:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [6:0] buff_free = 7'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [6:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 77'h00000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [76:0] buffer;
   reg [76:0] buffer = 77'h00000000000000000000;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [76:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [29:0] enc_in;
-  (* init = 30'h00000000 *)
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [29:0] enc_in_buff = 30'h00000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [29:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [4:0] enc_in_ctr;
-  (* init = 5'h00 *)
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [4:0] enc_in_ctr_buff = 5'h00;
-  (* init = 5'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [4:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [4:0] enc_in_ctr_reg = 5'h00;
-  (* init = 30'h00000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [4:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [29:0] enc_in_reg = 30'h00000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [29:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [6:0] new_buff_consum;
+  reg [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [6:0] new_buff_free;
+  reg [6:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -7781,409 +9864,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    start <= \start$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    valid_in_late <= \valid_in_late$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 5'h00;
+          \enc_in_ctr_reg$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [76:0];
+          \buffer$next  = \$30 [76:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [76:0];
+                      \buffer$next  = \$37 [76:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 77'h00000000000000000000;
+          \buffer$next  = 77'h00000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    new_buff_free = 7'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [6:0];
-      1'hz:
+          new_buff_free = \$46 [6:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [6:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [6:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [6:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 7'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    new_buff_consum = 7'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [6:0];
-      1'hz:
+          new_buff_consum = \$59 [6:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [6:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [6:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [6:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [6:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 7'h00;
+          \buff_consum$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 7'h4d;
+          \buff_free$next  = 7'h4d;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 7'h00;
+          \buff_free$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 30'h00000000;
+          \enc_in_buff$next  = 30'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 5'h00;
+          \enc_in_ctr_buff$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 30'h00000000;
+          \enc_in_reg$next  = 30'h00000000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -8194,96 +10546,15 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, fend_out, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$5 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$6 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$15 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$14 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$18 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$19 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$10 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$11 ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1" *)
+module integration_1(full_clk, clk, rst, fend_out, end_of_frame, pixel_in, \pixel_in$1 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, full_rst);
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -8308,10 +10579,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [55:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [5:0] enc_out_ctr;
+  wire [5:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
@@ -8338,10 +10611,13 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -8350,8 +10626,10 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
@@ -8379,7 +10657,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$12 ;
+  wire [4:0] \normalize_ssss$13 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
@@ -8387,7 +10665,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$13 ;
+  wire [11:0] \normalize_val_out$12 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -8396,10 +10674,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$11 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
@@ -8430,6 +10710,7 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -8438,10 +10719,12 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
@@ -8501,11 +10784,11 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .end_out(normalize_end_out),
     .rst(rst),
     .ssss(normalize_ssss),
-    .\ssss$3 (\normalize_ssss$12 ),
+    .\ssss$4 (\normalize_ssss$13 ),
     .val_in(normalize_val_in),
     .\val_in$1 (\normalize_val_in$10 ),
     .val_out(normalize_val_out),
-    .\val_out$4 (\normalize_val_out$13 ),
+    .\val_out$3 (\normalize_val_out$12 ),
     .valid_in(normalize_valid_in),
     .valid_out(normalize_valid_out),
     .vals_in_mns(normalize_vals_in_mns),
@@ -8542,292 +10825,106 @@ module integration_1(pixel_in, \pixel_in$1 , rst, clk, full_rst, full_clk, enc_o
     .rst(rst),
     .width(signals_width)
   );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$5  = 12'h000;
-    \$next\difference_pixel_in$5  = \predictor_pixel_out$3 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$6  = 12'h000;
-    \$next\difference_predic_in$6  = \predictor_predic_out$4 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$10  = 13'h0000;
-    \$next\normalize_val_in$10  = \difference_val_out$7 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$8 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$11  = 13'h0000;
-    \$next\normalize_vals_in_mns$11  = \difference_val_out$9 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$14  = 12'h000;
-    \$next\encode_val_in$14  = \normalize_val_out$13 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$15  = 5'h00;
-    \$next\encode_ssss$15  = \normalize_ssss$12 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in$18  = 28'h0000000;
-    \$next\merge_enc_in$18  = \encode_enc_out$16 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$19  = 5'h00;
-    \$next\merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$2  = 12'h000;
-    \$next\predictor_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$19  = \$next\merge_enc_in_ctr$19 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$18  = \$next\merge_enc_in$18 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$15  = \$next\encode_ssss$15 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$14  = \$next\encode_val_in$14 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$11  = \$next\normalize_vals_in_mns$11 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$10  = \$next\normalize_val_in$10 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$6  = \$next\difference_predic_in$6 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$5  = \$next\difference_pixel_in$5 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$2  = \$next\predictor_pixel_in$2 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$18  = \encode_enc_out$16 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$15  = \normalize_ssss$13 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$14  = \normalize_val_out$12 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$11  = \difference_val_out$9 ;
+  assign normalize_vals_in_mns = \difference_val_out$8 ;
+  assign \normalize_val_in$10  = \difference_val_out$7 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$6  = \predictor_predic_out$4 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$5  = \predictor_pixel_out$3 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$2  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, full_clk, nready, enc_out, enc_out_ctr, valid_out, out_end, fend_out, valid_in);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2" *)
+module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, full_rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$226  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:61" *)
   wire \$13 ;
+  (* src = "integration_2.py:61" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:62" *)
   wire \$19 ;
+  (* src = "integration_2.py:62" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$3 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$30 ;
+  (* src = "integration_2.py:70" *)
   wire \$32 ;
+  (* src = "integration_2.py:75" *)
   wire \$34 ;
+  (* src = "integration_2.py:75" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:80" *)
   wire \$44 ;
+  (* src = "integration_2.py:80" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:62" *)
   wire \$5 ;
+  (* src = "converter_fifo.py:65" *)
   wire [55:0] \$50 ;
+  (* src = "converter_fifo.py:66" *)
   wire [5:0] \$52 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [55:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [5:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [29:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [4:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [55:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [5:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -8868,34 +10965,40 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [55:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [5:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [55:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [55:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [5:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$2 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -8916,69 +11019,80 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$15  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$17  = \$13  | (* src = "integration_2.py:60" *) \$15 ;
-  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$21  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$23  = \$19  & (* src = "integration_2.py:61" *) \$21 ;
-  assign \$25  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$30  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$32  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$36  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$38  = \$34  | (* src = "integration_2.py:74" *) \$36 ;
-  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$40  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$46  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$48  = \$44  & (* src = "integration_2.py:79" *) \$46 ;
+  wire valid_out;
+  assign \$9  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$15  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$17  = \$13  | (* src = "integration_2.py:61" *) \$15 ;
+  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$21  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$23  = \$19  & (* src = "integration_2.py:62" *) \$21 ;
+  assign \$25  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$30  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$32  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$36  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$38  = \$34  | (* src = "integration_2.py:75" *) \$36 ;
+  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$40  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$46  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$48  = \$44  & (* src = "integration_2.py:80" *) \$46 ;
   assign \$50  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$52  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$7  = \$3  & (* src = "integration_2.py:61" *) \$5 ;
+  assign \$5  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$7  = \$3  & (* src = "integration_2.py:62" *) \$5 ;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -9037,248 +11151,150 @@ module integration_2(pixel_in, \pixel_in$1 , latch_output, rst, clk, full_rst, f
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$11 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$17 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
+    \nready_end$next  = \$17 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 6'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 56'h00000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 6'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 30'h00000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$27 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 5'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \$50 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \$52 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$29 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
+    \nready_reset_counter$next  = \$30 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$32 )
-      1'h1:
-          \$next\nready_reset  = 1'h1;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\nready_reset  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$42 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$2  = 12'h000;
-    \$next\integration_1_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$48 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 56'h00000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
-  assign \$29  = \$30 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$2  = \$next\integration_1_pixel_in$2 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top.integration_3" *)
-(* generator = "nMigen" *)
-module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_clk, data_out, valid_out, end_out, nready, fend_out, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [29:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [4:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+      /* src = "integration_2.py:70" */
+      1'h1:
+          \nready_reset$next  = 1'h1;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \nready_reset$next  = 1'h0;
+    endcase
+  end
+  assign \$29  = \$30 ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$52 ;
+  assign enc_out = \$50 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$48 ;
+  assign \integration_1_pixel_in$2  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$42 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top.integration_3" *)
+module integration_3(full_clk, clk, rst, pixel_in, \pixel_in$1 , valid_in, busy_in, data_out, valid_out, end_out, fend_out, nready, full_rst);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "integration_3.py:25" *)
+  wire clk;
+  (* src = "integration_3.py:26" *)
   output [15:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [15:0] data_out;
+  (* src = "integration_3.py:31" *)
   output end_out;
-  (* src = "integration_1.py:35" *)
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_2.py:24" *)
-  wire [55:0] integration_2_enc_out;
+  wire full_rst;
   (* src = "integration_2.py:25" *)
-  wire [5:0] integration_2_enc_out_ctr;
+  wire [55:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [5:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$2 ;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -9326,915 +11342,935 @@ module integration_3(\pixel_in$1 , valid_in, busy_in, rst, clk, full_rst, full_c
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$2  = 12'h000;
-    \$next\integration_2_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 30'h00000000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[29:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 5'h00;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[4:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign \integration_2_pixel_in$2  = \$next\integration_2_pixel_in$2 ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[4:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[29:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign \integration_2_pixel_in$2  = \pixel_in$1 ;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$227  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [62:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [55:0] enc_in;
+  wire [55:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [55:0] enc_out;
+  wire [55:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [62:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [62:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [62:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [62:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 9'h1f6;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 63'h0000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = fifo_dout[55:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[61:56];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[62];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$227 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[62];
+  assign enc_out_ctr = fifo_r_data[61:56];
+  assign enc_out = fifo_r_data[55:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, o_busy, valid_out, end_out, data_out, i_busy);
+(* \nmigen.hierarchy  = "top.top.markers" *)
+module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$228  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
   output o_busy;
+  reg o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      counter <= \$next\counter ;
-  always @(posedge clk)
-      end_cond <= \$next\end_cond ;
-  always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
+  always @(posedge clk)
+    fsm_state <= \fsm_state$next ;
+  always @(posedge clk)
+    counter <= \counter$next ;
+  always @(posedge clk)
+    end_cond <= \end_cond$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.merge" *)
+module merge(rst, enc_in, \enc_in$1 , enc_in_ctr, \enc_in_ctr$2 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, clk);
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:112" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [5:0] \$next\enc_out_ctr ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$4 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$3 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
+  wire [4:0] \enc_in_ctr$2 ;
   (* src = "merge.py:112" *)
   output [55:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$6 ;
+  wire [55:0] enc_out;
   (* src = "merge.py:113" *)
   output [5:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$5 ;
+  wire [5:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$4 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$8 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$3 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$7 ;
-  \anonymous$5  \$9  (
+  wire valid_out;
+  \U$$0$4  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$6 ),
-    .enc_out_ctr(\enc_out_ctr$5 ),
-    .end_in(\end_in$4 ),
-    .end_out(\end_out$8 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$3 ),
-    .valid_out(\valid_out$7 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\valid_in$3  = 1'h0;
-    \$next\valid_in$3  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$4  = 1'h0;
-    \$next\end_in$4  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \enc_out$6 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$5 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$7 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$8 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$4  = \$next\end_in$4 ;
-  assign \valid_in$3  = \$next\valid_in$3 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_out_ctr = \U$$0_enc_out_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$2 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , rst, clk, ssss, val_out, \ssss$3 , \val_out$4 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.normalize" *)
+module normalize(rst, val_in, \val_in$1 , vals_in_mns, \vals_in_mns$2 , valid_in, end_in, val_out, \val_out$3 , ssss, \ssss$4 , valid_out, end_out, clk);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$6 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$3 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$12 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$5 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$13 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$4 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$11 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire \U$$1_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$9 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$3 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$8 ;
+  output [4:0] \ssss$4 ;
+  wire [4:0] \ssss$4 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$12 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$13 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$4 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$7 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$11 ;
+  output [11:0] \val_out$3 ;
+  wire [11:0] \val_out$3 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$2 ;
-  anonymous \$10  (
+  wire [12:0] \vals_in_mns$2 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$9 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$8 ),
-    .val_in(\val_in$5 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$7 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$2  \$17  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$14 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$12 ),
-    .val_in_mns(\val_in_mns$13 ),
-    .val_out(\val_out$15 ),
-    .valid(\valid$11 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  always @* begin
-    \$next\val_in$5  = 13'h0000;
-    \$next\val_in$5  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out$4  = 12'h000;
-    \$next\val_out$4  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$9 ;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$8 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$7 ;
-  end
-  always @* begin
-    \$next\val_in$12  = 13'h0000;
-    \$next\val_in$12  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$11  = 1'h0;
-    \$next\valid$11  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$13  = 13'h0000;
-    \$next\val_in_mns$13  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$4  = \$next\val_out$4 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \val_in_mns$13  = \$next\val_in_mns$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \valid$11  = \$next\valid$11 ;
-  assign \val_in$12  = \$next\val_in$12 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign valid = \$next\valid ;
-  assign \val_in$5  = \$next\val_in$5 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$3  = \U$$1_val_out ;
+  assign \ssss$4  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$2 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.top.integration_3.vbits_to_cbits.output_handler" *)
+module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$229  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [7:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [7:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [76:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [91:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [3:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [5:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [6:0] buff_consum;
+  wire [6:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [76:0] buffer;
+  wire [76:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 16'h0000 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [15:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [3:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [5:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -10273,148 +12309,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\shift_right  = 6'h00;
-    \$next\shift_right  = \$1 [5:0];
-  end
-  always @* begin
-    \$next\shift_left  = 4'h0;
-    \$next\shift_left  = \$4 [3:0];
-  end
-  always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$229 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$229 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$229 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [15:0];
+                      \data_out$next  = \$40 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [15:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [15:0];
+                      \data_out$next  = \$52 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$229 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$229 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -10423,143 +12512,143 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [3:0];
+  assign shift_right = \$2 [5:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.predictor" *)
+module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$230  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$10 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$12 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$14 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$21 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$22 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$27 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$28 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$4 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$6 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$8 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$24 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$25 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$26 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$30 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$31 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$32 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out$3 ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$24  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$24$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$25  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$25$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$26  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$26$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg buff_ctr = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$30  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$30$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$31  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$31$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$32  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$32$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg lbuff_ctr = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] \pixel_in$1 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] \pixel_out$2 ;
   reg [11:0] \pixel_out$2  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$2$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] \predic_out$3 ;
   reg [11:0] \predic_out$3  = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$10  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$12  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$14  = \$10  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$12 ;
@@ -10571,585 +12660,658 @@ module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \
   assign \$6  = new_row == (* src = "predictor_p1_c4_pix1_2.py:115" *) 1'h1;
   assign \$8  = \$4  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$6 ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \predic_out$3  <= \$next\predic_out$3 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$32  <= \$next\lbuff$32 ;
+    \lbuff$32  <= \lbuff$32$next ;
   always @(posedge clk)
-      \lbuff$31  <= \$next\lbuff$31 ;
+    \lbuff$31  <= \lbuff$31$next ;
   always @(posedge clk)
-      \lbuff$30  <= \$next\lbuff$30 ;
+    \lbuff$30  <= \lbuff$30$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$26  <= \$next\buff$26 ;
+    \buff$26  <= \buff$26$next ;
   always @(posedge clk)
-      \buff$25  <= \$next\buff$25 ;
+    \buff$25  <= \buff$25$next ;
   always @(posedge clk)
-      \buff$24  <= \$next\buff$24 ;
+    \buff$24  <= \buff$24$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      \pixel_out$2  <= \$next\pixel_out$2 ;
+    \pixel_out$2  <= \pixel_out$2$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$14 , \$8  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$16 ;
-  end
-  always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$27 [0];
+                \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 1'h0;
+          \lbuff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$30  = \lbuff$30 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \lbuff$30$next  = \lbuff$30 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff$30  = \pixel_in$1 ;
+                      \lbuff$30$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$30  = 12'h800;
+          \lbuff$30$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$31  = \lbuff$31 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \lbuff$31$next  = \lbuff$31 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$31  = pixel_in;
+                      \lbuff$31$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$31  = 12'h800;
+          \lbuff$31$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$32  = \lbuff$32 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \lbuff$32$next  = \lbuff$32 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$32  = \pixel_in$1 ;
+                      \lbuff$32$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$32  = 12'h800;
+          \lbuff$32$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out  = \lbuff$31 ;
+                      \predic_out$next  = \lbuff$31 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out  = \buff$25 ;
+                      \predic_out$next  = \buff$25 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$3  = \predic_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out$3  = \lbuff$30 ;
+                      \predic_out$3$next  = \lbuff$30 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out$3  = \lbuff$32 ;
+                      \predic_out$3$next  = \lbuff$32 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out$3  = \buff$24 ;
+                      \predic_out$3$next  = \buff$24 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out$3  = \buff$26 ;
+                      \predic_out$3$next  = \buff$26 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$3  = 12'h000;
+          \predic_out$3$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$18 [31:0];
+          \debug_counter$next  = \$19 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$2  = \pixel_out$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \pixel_out$2$next  = \pixel_out$2 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out$2  = \pixel_in$1 ;
+          \pixel_out$2$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$2  = 12'h000;
+          \pixel_out$2$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$21 [0];
+          \buff_ctr$next  = \$22 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 1'h0;
+          \buff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$24  = \buff$24 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \buff$24$next  = \buff$24 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff$24  = \pixel_in$1 ;
+                \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$24  = 12'h800;
+          \buff$24$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$25  = \buff$25 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \buff$25$next  = \buff$25 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$25  = pixel_in;
+                \buff$25$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$25  = 12'h800;
+          \buff$25$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$26  = \buff$26 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
+    \buff$26$next  = \buff$26 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$26  = \pixel_in$1 ;
+                \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$26  = 12'h800;
+          \buff$26$next  = 12'h800;
     endcase
   end
   assign \$18  = \$19 ;
   assign \$21  = \$22 ;
   assign \$27  = \$28 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$16 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.reader_fifo" *)
 (* generator = "nMigen" *)
-module reader_fifo(end_in, data_in, read, replace, rst, clk, writable16, data_out, valid_out, valid_in);
+(* \nmigen.hierarchy  = "top.reader_fifo" *)
+module reader_fifo(data_in, end_in, valid_in, read, data_out, valid_out, full_rst, full_clk, writable16);
+  (* src = "axihp_fifo.py:54" *)
   wire \$1 ;
+  (* src = "axihp_fifo.py:55" *)
   wire \$3 ;
-  (* src = "axihp_fifo.py:11" *)
-  reg [63:0] \$next\data_out ;
-  (* src = "axihp_fifo.py:14" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [64:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "axihp_fifo.py:22" *)
-  reg \$next\readable ;
-  (* src = "axihp_fifo.py:25" *)
-  reg \$next\readable16 ;
-  (* src = "axihp_fifo.py:17" *)
-  reg \$next\valid_out ;
-  (* src = "axihp_fifo.py:21" *)
-  reg \$next\writable ;
-  (* src = "axihp_fifo.py:24" *)
-  reg \$next\writable16 ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
   (* src = "axihp_fifo.py:10" *)
   input [63:0] data_in;
+  wire [63:0] data_in;
   (* src = "axihp_fifo.py:11" *)
   output [63:0] data_out;
+  wire [63:0] data_out;
   (* src = "axihp_fifo.py:13" *)
   input end_in;
+  wire end_in;
   (* src = "axihp_fifo.py:14" *)
   wire end_out;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [64:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [64:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [5:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [64:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [64:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
   (* src = "axihp_fifo.py:19" *)
   input read;
+  wire read;
   (* src = "axihp_fifo.py:22" *)
   wire readable;
   (* src = "axihp_fifo.py:25" *)
   wire readable16;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "clk_domains.py:5" *)
-  input rst;
   (* src = "axihp_fifo.py:16" *)
   input valid_in;
+  wire valid_in;
   (* src = "axihp_fifo.py:17" *)
   output valid_out;
+  wire valid_out;
   (* src = "axihp_fifo.py:21" *)
   wire writable;
   (* src = "axihp_fifo.py:24" *)
   output writable16;
+  wire writable16;
   assign \$1  = fifo_level >= (* src = "axihp_fifo.py:54" *) 5'h10;
   assign \$3  = fifo_level <= (* src = "axihp_fifo.py:55" *) 4'hc;
-  \fifo$8  fifo (
-    .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
+  \fifo$7  fifo (
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
-    .replace(replace),
-    .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
-  always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 65'h00000000000000000;
-    \$next\fifo_din  = { data_in, end_in };
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = read;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = fifo_readable;
-  end
-  always @* begin
-    \$next\readable16  = 1'h0;
-    \$next\readable16  = \$1 ;
-  end
-  always @* begin
-    \$next\writable16  = 1'h0;
-    \$next\writable16  = \$3 ;
-  end
-  always @* begin
-    \$next\data_out  = 64'h0000000000000000;
-    \$next\data_out  = fifo_dout[64:1];
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = fifo_dout[0];
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  assign valid_out = \$next\valid_out ;
-  assign end_out = \$next\end_out ;
-  assign data_out = \$next\data_out ;
-  assign writable16 = \$next\writable16 ;
-  assign readable16 = \$next\readable16 ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
-  assign fifo_re = \$next\fifo_re ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign valid_out = fifo_r_rdy;
+  assign end_out = fifo_r_data[0];
+  assign data_out = fifo_r_data[64:1];
+  assign writable16 = \$3 ;
+  assign readable16 = \$1 ;
+  assign readable = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_r_en = read;
+  assign fifo_w_data = { data_in, end_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_clk, width, height, allowed_cycles, full_rst);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.register_file" *)
+module register_file(full_clk, height, width, allowed_cycles, full_rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$231  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$231 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$231 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$231 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.integration_1.signals" *)
+module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$232  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -11164,124 +13326,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 2'h2;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$232 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$232 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$232 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$232 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$232 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -11290,139 +13521,86 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi_ri__rresp, m_axi_ri__rdata, m_axi_aclk_, m_axi_wi__awready, m_axi_wi__wready, m_axi_wi__bvalid, m_axi_wi__bresp, m_axi_aclk, s_axi_ri___arvalid, s_axi_wi___awvalid, s_axi_ri___araddr, s_axi_ri___rready, s_axi_wi___awaddr, s_axi_wi___wvalid, s_axi_wi___wdata, s_axi_wi___wstrb, s_axi_wi___bready, replace, \replace$1 , m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst, m_axi_ro__arlen, m_axi_ro__arsize, m_axi_ro__arprot, m_axi_ro__arvalid, m_axi_ro__rready, m_axi_wo__awid, m_axi_wo__awaddr, m_axi_wo__awburst, m_axi_wo__awlen, m_axi_wo__awsize, m_axi_wo__awprot, m_axi_wo__awvalid, m_axi_wo__wid, m_axi_wo__wdata, m_axi_wo__wstrb, m_axi_wo__wlast, m_axi_wo__wvalid, m_axi_wo__bready, s_axi_ro___arready, s_axi_ro___rdata, s_axi_ro___rresp, s_axi_ro___rvalid, s_axi_wo___awready, s_axi_wo___wready, s_axi_wo___bresp, s_axi_wo___bvalid, full_clk);
-  wire \$10 ;
-  wire \$12 ;
-  wire \$14 ;
-  wire \$16 ;
-  wire \$18 ;
-  wire \$2 ;
-  wire \$20 ;
-  wire \$22 ;
-  wire \$24 ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_axi_areset_n_, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst, m_axi_ro__arlen, m_axi_ro__arsize, m_axi_ro__arprot, m_axi_ro__arvalid, m_axi_ro__rready, m_axi_ri__arready, m_axi_ri__racount, m_axi_ri__rid, m_axi_ri__rdata, m_axi_ri__rlast, m_axi_ri__rresp, m_axi_ri__rvalid, m_axi_ri__rcount, m_axi_aclk, m_axi_areset_n, m_axi_wo__awid, m_axi_wo__awaddr
+, m_axi_wo__awburst, m_axi_wo__awlen, m_axi_wo__awsize, m_axi_wo__awprot, m_axi_wo__awvalid, m_axi_wo__wid, m_axi_wo__wdata, m_axi_wo__wstrb, m_axi_wo__wlast, m_axi_wo__wvalid, m_axi_wo__bready, m_axi_wi__awready, m_axi_wi__wacount, m_axi_wi__wready, m_axi_wi__wcount, m_axi_wi__bid, m_axi_wi__bresp, m_axi_wi__bvalid, s_axi_aclk_, s_axi_areset_n_, s_axi_ro___arready
+, s_axi_ro___rdata, s_axi_ro___rresp, s_axi_ro___rvalid, s_axi_ri___araddr, s_axi_ri___arprot, s_axi_ri___arvalid, s_axi_ri___rready, s_axi_wo___awready, s_axi_wo___wready, s_axi_wo___bresp, s_axi_wo___bvalid, s_axi_wi___awaddr, s_axi_wi___awprot, s_axi_wi___awvalid, s_axi_wi___wdata, s_axi_wi___wstrb, s_axi_wi___wvalid, s_axi_wi___bready, full_clk, full_rst, m_axi_aclk_
+);
+  reg \$auto$verilog_backend.cc:2184:dump_module$233  = 0;
+  (* src = "beta_integration_fullaxi.py:90" *)
+  wire \$1 ;
+  (* src = "beta_integration_fullaxi.py:96" *)
+  wire \$11 ;
+  (* src = "beta_integration_fullaxi.py:96" *)
+  wire \$13 ;
+  (* src = "beta_integration_fullaxi.py:97" *)
+  wire \$15 ;
+  (* src = "beta_integration_fullaxi.py:90" *)
+  wire \$17 ;
+  (* src = "beta_integration_fullaxi.py:90" *)
+  wire \$19 ;
+  (* src = "beta_integration_fullaxi.py:90" *)
+  wire \$21 ;
+  (* src = "beta_integration_fullaxi.py:91" *)
+  wire \$23 ;
+  (* src = "beta_integration_fullaxi.py:94" *)
+  wire [32:0] \$25 ;
+  (* src = "beta_integration_fullaxi.py:94" *)
   wire [32:0] \$26 ;
-  wire [32:0] \$27 ;
-  wire \$29 ;
-  wire \$31 ;
-  wire \$33 ;
-  wire \$35 ;
+  (* src = "beta_integration_fullaxi.py:96" *)
+  wire \$28 ;
+  (* src = "beta_integration_fullaxi.py:90" *)
+  wire \$3 ;
+  (* src = "beta_integration_fullaxi.py:96" *)
+  wire \$30 ;
+  (* src = "beta_integration_fullaxi.py:96" *)
+  wire \$32 ;
+  (* src = "beta_integration_fullaxi.py:97" *)
+  wire \$34 ;
+  (* src = "beta_integration_fullaxi.py:100" *)
+  wire [32:0] \$36 ;
+  (* src = "beta_integration_fullaxi.py:100" *)
   wire [32:0] \$37 ;
-  wire [32:0] \$38 ;
-  wire \$4 ;
-  wire [31:0] \$40 ;
-  wire [31:0] \$42 ;
-  wire \$44 ;
-  wire \$46 ;
-  wire \$48 ;
-  wire \$50 ;
-  wire \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$58 ;
-  wire \$6 ;
-  wire \$60 ;
-  wire \$62 ;
-  wire \$64 ;
-  wire \$66 ;
-  wire \$68 ;
-  wire \$8 ;
-  (* src = "address_generator.py:37" *)
-  reg \$next\address_gen_read_address_latch ;
-  (* src = "address_generator.py:39" *)
-  reg [31:0] \$next\address_gen_read_starting_address ;
-  (* src = "address_generator.py:37" *)
-  reg \$next\address_gen_write_address_latch ;
-  (* src = "address_generator.py:39" *)
-  reg [31:0] \$next\address_gen_write_starting_address ;
-  (* src = "axihp_reader.py:28" *)
-  reg \$next\axihp_reader_addr_empty ;
-  (* src = "axihp_reader.py:27" *)
-  reg [31:0] \$next\axihp_reader_addr_in ;
-  (* src = "axihp_reader.py:23" *)
-  reg \$next\axihp_reader_data_full ;
-  (* src = "axihp_reader.py:14" *)
-  reg \$next\axihp_reader_enable ;
-  (* src = "axihp_writer.py:23" *)
-  reg \$next\axihp_writer_addr_empty ;
-  (* src = "axihp_writer.py:22" *)
-  reg [31:0] \$next\axihp_writer_addr_in ;
-  (* src = "axihp_writer.py:28" *)
-  reg \$next\axihp_writer_data_empty ;
-  (* src = "axihp_writer.py:27" *)
-  reg [63:0] \$next\axihp_writer_data_in ;
-  (* src = "axihp_writer.py:14" *)
-  reg \$next\axihp_writer_enable ;
-  (* src = "axihp_writer.py:30" *)
-  reg [7:0] \$next\axihp_writer_write_strobe ;
-  (* src = "b16_b64.py:34" *)
-  reg [15:0] \$next\b16_b64_data_in ;
-  (* src = "b16_b64.py:43" *)
-  reg \$next\b16_b64_end_in ;
-  (* src = "b16_b64.py:47" *)
-  reg \$next\b16_b64_i_busy ;
-  (* src = "b16_b64.py:40" *)
-  reg \$next\b16_b64_valid_in ;
-  (* src = "b64_b32.py:35" *)
-  reg [63:0] \$next\b64_b32_data_in ;
-  (* src = "b64_b32.py:45" *)
-  reg \$next\b64_b32_i_busy ;
-  (* src = "b64_b32.py:41" *)
-  reg \$next\b64_b32_valid_in ;
-  (* src = "beta_integration_fullaxi.py:66" *)
-  reg [31:0] \$next\counter_read ;
-  (* src = "beta_integration_fullaxi.py:67" *)
-  reg [31:0] \$next\counter_write ;
-  (* src = "dma_axi_lite.py:66" *)
-  reg [31:0] \$next\dma_axi_lite_in1 ;
-  (* src = "dma_axi_lite.py:67" *)
-  reg [31:0] \$next\dma_axi_lite_in2 ;
-  (* src = "dma_axi_lite.py:68" *)
-  reg [31:0] \$next\dma_axi_lite_in3 ;
-  (* src = "dma_axi_lite.py:69" *)
-  reg [31:0] \$next\dma_axi_lite_in4 ;
-  (* src = "dma_axi_lite.py:70" *)
-  reg [31:0] \$next\dma_axi_lite_in5 ;
-  (* src = "dma_axi_lite.py:71" *)
-  reg [31:0] \$next\dma_axi_lite_in6 ;
-  (* src = "dma_axi_lite.py:72" *)
-  reg [31:0] \$next\dma_axi_lite_in7 ;
-  (* src = "dma_axi_lite.py:73" *)
-  reg [31:0] \$next\dma_axi_lite_in8 ;
-  (* src = "dma_axi_lite.py:74" *)
-  reg [31:0] \$next\dma_axi_lite_in9 ;
-  (* src = "beta_integration_fullaxi.py:69" *)
-  reg \$next\read_end ;
-  (* src = "axihp_fifo.py:10" *)
-  reg [63:0] \$next\reader_fifo_data_in ;
-  (* src = "axihp_fifo.py:13" *)
-  reg \$next\reader_fifo_end_in ;
-  (* src = "axihp_fifo.py:19" *)
-  reg \$next\reader_fifo_read ;
-  (* src = "axihp_fifo.py:16" *)
-  reg \$next\reader_fifo_valid_in ;
-  (* src = "beta_integration.py:43" *)
-  reg \$next\top_busy_in ;
-  (* src = "beta_integration.py:32" *)
-  reg [11:0] \$next\top_pixel_in1 ;
-  (* src = "beta_integration.py:33" *)
-  reg [11:0] \$next\top_pixel_in2 ;
-  (* src = "beta_integration.py:39" *)
-  reg \$next\top_valid_in ;
-  (* src = "beta_integration_fullaxi.py:70" *)
-  reg \$next\write_end ;
-  (* src = "axihp_fifo.py:10" *)
-  reg [63:0] \$next\writer_fifo_data_in ;
-  (* src = "axihp_fifo.py:13" *)
-  reg \$next\writer_fifo_end_in ;
-  (* src = "axihp_fifo.py:19" *)
-  reg \$next\writer_fifo_read ;
-  (* src = "axihp_fifo.py:16" *)
-  reg \$next\writer_fifo_valid_in ;
+  (* src = "beta_integration_fullaxi.py:104" *)
+  wire [31:0] \$39 ;
+  (* src = "beta_integration.py:36" *)
+  wire [31:0] \$41 ;
+  (* src = "beta_integration_fullaxi.py:129" *)
+  wire \$43 ;
+  (* src = "beta_integration_fullaxi.py:131" *)
+  wire \$45 ;
+  (* src = "beta_integration_fullaxi.py:134" *)
+  wire \$47 ;
+  (* src = "beta_integration_fullaxi.py:134" *)
+  wire \$49 ;
+  (* src = "beta_integration_fullaxi.py:90" *)
+  wire \$5 ;
+  (* src = "beta_integration_fullaxi.py:134" *)
+  wire \$51 ;
+  (* src = "beta_integration_fullaxi.py:142" *)
+  wire \$53 ;
+  (* src = "beta_integration_fullaxi.py:154" *)
+  wire \$55 ;
+  (* src = "beta_integration_fullaxi.py:164" *)
+  wire \$57 ;
+  (* src = "beta_integration_fullaxi.py:178" *)
+  wire \$59 ;
+  (* src = "beta_integration_fullaxi.py:181" *)
+  wire \$61 ;
+  (* src = "beta_integration_fullaxi.py:185" *)
+  wire \$63 ;
+  (* src = "beta_integration_fullaxi.py:185" *)
+  wire \$65 ;
+  (* src = "beta_integration_fullaxi.py:185" *)
+  wire \$67 ;
+  (* src = "beta_integration_fullaxi.py:91" *)
+  wire \$7 ;
+  (* src = "beta_integration_fullaxi.py:96" *)
+  wire \$9 ;
   (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
+  wire \$verilog_initial_trigger ;
   (* src = "address_generator.py:37" *)
   wire address_gen_read_address_latch;
   (* src = "address_generator.py:35" *)
@@ -11511,14 +13689,14 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
   wire b64_b32_valid_in;
   (* src = "b64_b32.py:42" *)
   wire b64_b32_valid_out;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  wire clk;
-  (* init = 32'd0 *)
-  (* src = "beta_integration_fullaxi.py:66" *)
+  (* src = "beta_integration_fullaxi.py:79" *)
   reg [31:0] counter_read = 32'd0;
-  (* init = 32'd0 *)
-  (* src = "beta_integration_fullaxi.py:67" *)
+  (* src = "beta_integration_fullaxi.py:79" *)
+  reg [31:0] \counter_read$next ;
+  (* src = "beta_integration_fullaxi.py:80" *)
   reg [31:0] counter_write = 32'd0;
+  (* src = "beta_integration_fullaxi.py:80" *)
+  reg [31:0] \counter_write$next ;
   (* src = "dma_axi_lite.py:66" *)
   wire [31:0] dma_axi_lite_in1;
   (* src = "dma_axi_lite.py:67" *)
@@ -11545,74 +13723,132 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
   wire [31:0] dma_axi_lite_write_addr;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "axihp_writer.py:12" *)
   input m_axi_aclk;
+  wire m_axi_aclk;
   (* src = "axihp_reader.py:12" *)
   input m_axi_aclk_;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_aclk_;
+  (* src = "axihp_writer.py:13" *)
+  input m_axi_areset_n;
+  wire m_axi_areset_n;
+  (* src = "axihp_reader.py:13" *)
+  input m_axi_areset_n_;
+  wire m_axi_areset_n_;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__arready;
+  (* src = "axihp_reader.py:18" *)
+  input m_axi_ri__racount;
+  wire m_axi_ri__racount;
+  (* src = "axihp_reader.py:18" *)
+  input [7:0] m_axi_ri__rcount;
+  wire [7:0] m_axi_ri__rcount;
+  (* src = "axihp_reader.py:18" *)
   input [63:0] m_axi_ri__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [63:0] m_axi_ri__rdata;
+  (* src = "axihp_reader.py:18" *)
+  input [5:0] m_axi_ri__rid;
+  wire [5:0] m_axi_ri__rid;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__rlast;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__rlast;
+  (* src = "axihp_reader.py:18" *)
   input [1:0] m_axi_ri__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ri__rresp;
+  (* src = "axihp_reader.py:18" *)
   input m_axi_ri__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ri__rvalid;
+  (* src = "axihp_reader.py:17" *)
   output [31:0] m_axi_ro__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_ro__araddr;
+  (* src = "axihp_reader.py:17" *)
   output [1:0] m_axi_ro__arburst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ro__arburst;
+  (* src = "axihp_reader.py:17" *)
   output [5:0] m_axi_ro__arid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_ro__arid;
+  (* src = "axihp_reader.py:17" *)
   output [3:0] m_axi_ro__arlen;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] m_axi_ro__arlen;
+  (* src = "axihp_reader.py:17" *)
   output [2:0] m_axi_ro__arprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_ro__arprot;
+  (* src = "axihp_reader.py:17" *)
   output [1:0] m_axi_ro__arsize;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_ro__arsize;
+  (* src = "axihp_reader.py:17" *)
   output m_axi_ro__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ro__arvalid;
+  (* src = "axihp_reader.py:17" *)
   output m_axi_ro__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_ro__rready;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__awready;
+  (* src = "axihp_writer.py:18" *)
+  input [5:0] m_axi_wi__bid;
+  wire [5:0] m_axi_wi__bid;
+  (* src = "axihp_writer.py:18" *)
   input [1:0] m_axi_wi__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wi__bresp;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__bvalid;
+  (* src = "axihp_writer.py:18" *)
+  input [5:0] m_axi_wi__wacount;
+  wire [5:0] m_axi_wi__wacount;
+  (* src = "axihp_writer.py:18" *)
+  input [7:0] m_axi_wi__wcount;
+  wire [7:0] m_axi_wi__wcount;
+  (* src = "axihp_writer.py:18" *)
   input m_axi_wi__wready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wi__wready;
+  (* src = "axihp_writer.py:17" *)
   output [31:0] m_axi_wo__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] m_axi_wo__awaddr;
+  (* src = "axihp_writer.py:17" *)
   output [1:0] m_axi_wo__awburst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wo__awburst;
+  (* src = "axihp_writer.py:17" *)
   output [5:0] m_axi_wo__awid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_wo__awid;
+  (* src = "axihp_writer.py:17" *)
   output [3:0] m_axi_wo__awlen;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] m_axi_wo__awlen;
+  (* src = "axihp_writer.py:17" *)
   output [2:0] m_axi_wo__awprot;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [2:0] m_axi_wo__awprot;
+  (* src = "axihp_writer.py:17" *)
   output [1:0] m_axi_wo__awsize;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] m_axi_wo__awsize;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__awvalid;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__bready;
+  (* src = "axihp_writer.py:17" *)
   output [63:0] m_axi_wo__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [63:0] m_axi_wo__wdata;
+  (* src = "axihp_writer.py:17" *)
   output [5:0] m_axi_wo__wid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [5:0] m_axi_wo__wid;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__wlast;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_axi_wo__wlast;
+  (* src = "axihp_writer.py:17" *)
   output [7:0] m_axi_wo__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [7:0] m_axi_wo__wstrb;
+  (* src = "axihp_writer.py:17" *)
   output m_axi_wo__wvalid;
-  (* src = "beta_integration_fullaxi.py:69" *)
-  wire read_end;
+  wire m_axi_wo__wvalid;
+  (* src = "beta_integration_fullaxi.py:82" *)
+  reg read_end;
   (* src = "axihp_fifo.py:10" *)
   wire [63:0] reader_fifo_data_in;
   (* src = "axihp_fifo.py:11" *)
@@ -11627,46 +13863,69 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
   wire reader_fifo_valid_out;
   (* src = "axihp_fifo.py:24" *)
   wire reader_fifo_writable16;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input \replace$1 ;
-  (* src = "clk_domains.py:5" *)
-  wire rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "dma_axi_lite.py:49" *)
+  input s_axi_aclk_;
+  wire s_axi_aclk_;
+  (* src = "dma_axi_lite.py:50" *)
+  input s_axi_areset_n_;
+  wire s_axi_areset_n_;
+  (* src = "dma_axi_lite.py:54" *)
   input [31:0] s_axi_ri___araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri___araddr;
+  (* src = "dma_axi_lite.py:54" *)
+  input [2:0] s_axi_ri___arprot;
+  wire [2:0] s_axi_ri___arprot;
+  (* src = "dma_axi_lite.py:54" *)
   input s_axi_ri___arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri___arvalid;
+  (* src = "dma_axi_lite.py:54" *)
   input s_axi_ri___rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri___rready;
+  (* src = "dma_axi_lite.py:53" *)
   output s_axi_ro___arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro___arready;
+  (* src = "dma_axi_lite.py:53" *)
   output [31:0] s_axi_ro___rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro___rdata;
+  (* src = "dma_axi_lite.py:53" *)
   output [1:0] s_axi_ro___rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro___rresp;
+  (* src = "dma_axi_lite.py:53" *)
   output s_axi_ro___rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro___rvalid;
+  (* src = "dma_axi_lite.py:56" *)
   input [31:0] s_axi_wi___awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi___awaddr;
+  (* src = "dma_axi_lite.py:56" *)
+  input [2:0] s_axi_wi___awprot;
+  wire [2:0] s_axi_wi___awprot;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___awvalid;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___bready;
+  (* src = "dma_axi_lite.py:56" *)
   input [31:0] s_axi_wi___wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi___wdata;
+  (* src = "dma_axi_lite.py:56" *)
   input [3:0] s_axi_wi___wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi___wstrb;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___wvalid;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo___awready;
+  (* src = "dma_axi_lite.py:55" *)
   output [1:0] s_axi_wo___bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo___bresp;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo___bvalid;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___wready;
+  wire s_axi_wo___wready;
   (* src = "beta_integration.py:43" *)
   wire top_busy_in;
   (* src = "beta_integration.py:36" *)
@@ -11683,8 +13942,8 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
   wire top_valid_in;
   (* src = "beta_integration.py:40" *)
   wire top_valid_out;
-  (* src = "beta_integration_fullaxi.py:70" *)
-  wire write_end;
+  (* src = "beta_integration_fullaxi.py:83" *)
+  reg write_end;
   (* src = "axihp_fifo.py:10" *)
   wire [63:0] writer_fifo_data_in;
   (* src = "axihp_fifo.py:11" *)
@@ -11703,68 +13962,69 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
   wire writer_fifo_valid_out;
   (* src = "axihp_fifo.py:21" *)
   wire writer_fifo_writable;
-  assign \$10  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:83" *) 1'h1;
-  assign \$12  = axihp_writer_addr_enable == (* src = "beta_integration_fullaxi.py:83" *) 1'h1;
-  assign \$14  = \$10  & (* src = "beta_integration_fullaxi.py:83" *) \$12 ;
-  assign \$16  = counter_write == (* src = "beta_integration_fullaxi.py:84" *) 18'h20000;
-  assign \$18  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:77" *) 1'h1;
-  assign \$20  = axihp_reader_addr_enable == (* src = "beta_integration_fullaxi.py:77" *) 1'h1;
-  assign \$22  = \$18  & (* src = "beta_integration_fullaxi.py:77" *) \$20 ;
-  assign \$24  = counter_read == (* src = "beta_integration_fullaxi.py:78" *) 18'h30000;
-  assign \$27  = counter_read + (* src = "beta_integration_fullaxi.py:81" *) 1'h1;
-  assign \$2  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:77" *) 1'h1;
-  assign \$29  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:83" *) 1'h1;
-  assign \$31  = axihp_writer_addr_enable == (* src = "beta_integration_fullaxi.py:83" *) 1'h1;
-  assign \$33  = \$29  & (* src = "beta_integration_fullaxi.py:83" *) \$31 ;
-  assign \$35  = counter_write == (* src = "beta_integration_fullaxi.py:84" *) 18'h20000;
-  assign \$38  = counter_write + (* src = "beta_integration_fullaxi.py:87" *) 1'h1;
-  assign \$40  = + (* src = "beta_integration_fullaxi.py:91" *) { axihp_writer_writer_unconf, axihp_reader_reader_active, axihp_writer_writer_active, axihp_reader_reader_error, axihp_writer_writer_error, axihp_writer_inactive, axihp_reader_inactive, write_end, read_end, axihp_writer_data_enable, writer_fifo_valid_out, writer_fifo_end_out, b16_b64_valid_out, b16_b64_end_out };
-  assign \$42  = + (* src = "beta_integration.py:36" *) top_data_out;
-  assign \$44  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:116" *) 32'd4294967295;
-  assign \$46  = reader_fifo_writable16 == (* src = "beta_integration_fullaxi.py:118" *) 1'h0;
-  assign \$48  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:121" *) 1'h0;
-  assign \$4  = axihp_reader_addr_enable == (* src = "beta_integration_fullaxi.py:77" *) 1'h1;
-  assign \$50  = read_end == (* src = "beta_integration_fullaxi.py:121" *) 1'h1;
-  assign \$52  = \$48  | (* src = "beta_integration_fullaxi.py:121" *) \$50 ;
-  assign \$54  = b64_b32_o_busy == (* src = "beta_integration_fullaxi.py:129" *) 1'h0;
-  assign \$56  = b64_b32_valid_out == (* src = "beta_integration_fullaxi.py:141" *) 1'h1;
-  assign \$58  = writer_fifo_writable == (* src = "beta_integration_fullaxi.py:151" *) 1'h0;
-  assign \$60  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:165" *) 32'd4294967295;
-  assign \$62  = writer_fifo_readable16 == (* src = "beta_integration_fullaxi.py:168" *) 1'h0;
-  assign \$64  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:172" *) 1'h0;
-  assign \$66  = write_end == (* src = "beta_integration_fullaxi.py:172" *) 1'h1;
-  assign \$68  = \$64  | (* src = "beta_integration_fullaxi.py:172" *) \$66 ;
-  assign \$6  = \$2  & (* src = "beta_integration_fullaxi.py:77" *) \$4 ;
-  assign \$8  = counter_read == (* src = "beta_integration_fullaxi.py:78" *) 18'h30000;
-  always @(posedge clk)
-      counter_write <= \$next\counter_write ;
-  always @(posedge clk)
-      counter_read <= \$next\counter_read ;
+  assign \$9  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
+  assign \$11  = axihp_writer_addr_enable == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
+  assign \$13  = \$9  & (* src = "beta_integration_fullaxi.py:96" *) \$11 ;
+  assign \$15  = counter_write == (* src = "beta_integration_fullaxi.py:97" *) 18'h20000;
+  assign \$17  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
+  assign \$1  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
+  assign \$19  = axihp_reader_addr_enable == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
+  assign \$21  = \$17  & (* src = "beta_integration_fullaxi.py:90" *) \$19 ;
+  assign \$23  = counter_read == (* src = "beta_integration_fullaxi.py:91" *) 18'h30000;
+  assign \$26  = counter_read + (* src = "beta_integration_fullaxi.py:94" *) 1'h1;
+  assign \$28  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
+  assign \$30  = axihp_writer_addr_enable == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
+  assign \$32  = \$28  & (* src = "beta_integration_fullaxi.py:96" *) \$30 ;
+  assign \$34  = counter_write == (* src = "beta_integration_fullaxi.py:97" *) 18'h20000;
+  assign \$37  = counter_write + (* src = "beta_integration_fullaxi.py:100" *) 1'h1;
+  assign \$3  = axihp_reader_addr_enable == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
+  assign \$39  = + (* src = "beta_integration_fullaxi.py:104" *) { axihp_writer_writer_unconf, axihp_reader_reader_active, axihp_writer_writer_active, axihp_reader_reader_error, axihp_writer_writer_error, axihp_writer_inactive, axihp_reader_inactive, write_end, read_end, axihp_writer_data_enable, writer_fifo_valid_out, writer_fifo_end_out, b16_b64_valid_out, b16_b64_end_out };
+  assign \$41  = + (* src = "beta_integration.py:36" *) top_data_out;
+  assign \$43  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:129" *) 32'd4294967295;
+  assign \$45  = reader_fifo_writable16 == (* src = "beta_integration_fullaxi.py:131" *) 1'h0;
+  assign \$47  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:134" *) 1'h0;
+  assign \$49  = read_end == (* src = "beta_integration_fullaxi.py:134" *) 1'h1;
+  assign \$51  = \$47  | (* src = "beta_integration_fullaxi.py:134" *) \$49 ;
+  assign \$53  = b64_b32_o_busy == (* src = "beta_integration_fullaxi.py:142" *) 1'h0;
+  assign \$55  = b64_b32_valid_out == (* src = "beta_integration_fullaxi.py:154" *) 1'h1;
+  assign \$57  = writer_fifo_writable == (* src = "beta_integration_fullaxi.py:164" *) 1'h0;
+  assign \$5  = \$1  & (* src = "beta_integration_fullaxi.py:90" *) \$3 ;
+  assign \$59  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:178" *) 32'd4294967295;
+  assign \$61  = writer_fifo_readable16 == (* src = "beta_integration_fullaxi.py:181" *) 1'h0;
+  assign \$63  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:185" *) 1'h0;
+  assign \$65  = write_end == (* src = "beta_integration_fullaxi.py:185" *) 1'h1;
+  assign \$67  = \$63  | (* src = "beta_integration_fullaxi.py:185" *) \$65 ;
+  assign \$7  = counter_read == (* src = "beta_integration_fullaxi.py:91" *) 18'h30000;
+  always @(posedge full_clk)
+    counter_write <= \counter_write$next ;
+  always @(posedge full_clk)
+    counter_read <= \counter_read$next ;
   address_gen_read address_gen_read (
     .address_latch(address_gen_read_address_latch),
     .address_o(address_gen_read_address_o),
     .address_valid(address_gen_read_address_valid),
-    .clk(clk),
-    .rst(rst),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .starting_address(address_gen_read_starting_address)
   );
   address_gen_write address_gen_write (
     .address_latch(address_gen_write_address_latch),
     .address_o(address_gen_write_address_o),
     .address_valid(address_gen_write_address_valid),
-    .clk(clk),
-    .rst(rst),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .starting_address(address_gen_write_starting_address)
   );
   axihp_reader axihp_reader (
     .addr_empty(axihp_reader_addr_empty),
     .addr_enable(axihp_reader_addr_enable),
     .addr_in(axihp_reader_addr_in),
-    .clk(clk),
     .data_enable(axihp_reader_data_enable),
     .data_full(axihp_reader_data_full),
     .data_out(axihp_reader_data_out),
     .enable(axihp_reader_enable),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .inactive(axihp_reader_inactive),
     .m_axi_aclk_(m_axi_aclk_),
     .m_axi_ri__arready(m_axi_ri__arready),
@@ -11781,18 +14041,18 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
     .m_axi_ro__arvalid(m_axi_ro__arvalid),
     .m_axi_ro__rready(m_axi_ro__rready),
     .reader_active(axihp_reader_reader_active),
-    .reader_error(axihp_reader_reader_error),
-    .rst(rst)
+    .reader_error(axihp_reader_reader_error)
   );
   axihp_writer axihp_writer (
     .addr_empty(axihp_writer_addr_empty),
     .addr_enable(axihp_writer_addr_enable),
     .addr_in(axihp_writer_addr_in),
-    .clk(clk),
     .data_empty(axihp_writer_data_empty),
     .data_enable(axihp_writer_data_enable),
     .data_in(axihp_writer_data_in),
     .enable(axihp_writer_enable),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .inactive(axihp_writer_inactive),
     .m_axi_aclk(m_axi_aclk),
     .m_axi_wi__awready(m_axi_wi__awready),
@@ -11812,36 +14072,36 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
     .m_axi_wo__wlast(m_axi_wo__wlast),
     .m_axi_wo__wstrb(m_axi_wo__wstrb),
     .m_axi_wo__wvalid(m_axi_wo__wvalid),
-    .rst(rst),
     .write_strobe(axihp_writer_write_strobe),
     .writer_active(axihp_writer_writer_active),
     .writer_error(axihp_writer_writer_error),
     .writer_unconf(axihp_writer_writer_unconf)
   );
   b16_b64 b16_b64 (
-    .clk(clk),
     .data_in(b16_b64_data_in),
     .data_out(b16_b64_data_out),
     .end_in(b16_b64_end_in),
     .end_out(b16_b64_end_out),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .i_busy(b16_b64_i_busy),
     .o_busy(b16_b64_o_busy),
-    .rst(rst),
     .valid_in(b16_b64_valid_in),
     .valid_out(b16_b64_valid_out)
   );
   b64_b32 b64_b32 (
-    .clk(clk),
     .data_in(b64_b32_data_in),
     .data_out(b64_b32_data_out),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .i_busy(b64_b32_i_busy),
     .o_busy(b64_b32_o_busy),
-    .rst(rst),
     .valid_in(b64_b32_valid_in),
     .valid_out(b64_b32_valid_out)
   );
   dma_axi_lite dma_axi_lite (
-    .clk(clk),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .in1(dma_axi_lite_in1),
     .in2(dma_axi_lite_in2),
     .in3(dma_axi_lite_in3),
@@ -11852,7 +14112,6 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
     .in8(dma_axi_lite_in8),
     .in9(dma_axi_lite_in9),
     .read_addr(dma_axi_lite_read_addr),
-    .rst(rst),
     .s_axi_ri___araddr(s_axi_ri___araddr),
     .s_axi_ri___arvalid(s_axi_ri___arvalid),
     .s_axi_ri___rready(s_axi_ri___rready),
@@ -11874,20 +14133,18 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
     .write_addr(dma_axi_lite_write_addr)
   );
   reader_fifo reader_fifo (
-    .clk(clk),
     .data_in(reader_fifo_data_in),
     .data_out(reader_fifo_data_out),
     .end_in(reader_fifo_end_in),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .read(reader_fifo_read),
-    .replace(replace),
-    .rst(rst),
     .valid_in(reader_fifo_valid_in),
     .valid_out(reader_fifo_valid_out),
     .writable16(reader_fifo_writable16)
   );
   \top$1  top (
     .busy_in(top_busy_in),
-    .clk(clk),
     .data_out(top_data_out),
     .end_out(top_end_out),
     .full_clk(full_clk),
@@ -11895,358 +14152,162 @@ module top(full_rst, m_axi_ri__arready, m_axi_ri__rvalid, m_axi_ri__rlast, m_axi
     .nready(top_nready),
     .pixel_in1(top_pixel_in1),
     .pixel_in2(top_pixel_in2),
-    .rst(rst),
     .valid_in(top_valid_in),
     .valid_out(top_valid_out)
   );
   writer_fifo writer_fifo (
-    .clk(clk),
     .data_in(writer_fifo_data_in),
     .data_out(writer_fifo_data_out),
     .end_in(writer_fifo_end_in),
     .end_out(writer_fifo_end_out),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .read(writer_fifo_read),
     .readable16(writer_fifo_readable16),
-    .replace(\replace$1 ),
-    .rst(rst),
     .valid_in(writer_fifo_valid_in),
     .valid_out(writer_fifo_valid_out),
     .writable(writer_fifo_writable)
   );
   always @* begin
-    \$next\read_end  = 1'h0;
-    \$next\read_end  = 1'h0;
-    casez (\$6 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$233 ) begin end
+    read_end = 1'h0;
+    (* src = "beta_integration_fullaxi.py:90" *)
+    casez (\$5 )
+      /* src = "beta_integration_fullaxi.py:90" */
       1'h1:
-          casez (\$8 )
+          (* src = "beta_integration_fullaxi.py:91" *)
+          casez (\$7 )
+            /* src = "beta_integration_fullaxi.py:91" */
             1'h1:
-                \$next\read_end  = 1'h1;
+                read_end = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\write_end  = 1'h0;
-    \$next\write_end  = 1'h0;
-    casez (\$14 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$233 ) begin end
+    write_end = 1'h0;
+    (* src = "beta_integration_fullaxi.py:96" *)
+    casez (\$13 )
+      /* src = "beta_integration_fullaxi.py:96" */
       1'h1:
-          casez (\$16 )
+          (* src = "beta_integration_fullaxi.py:97" *)
+          casez (\$15 )
+            /* src = "beta_integration_fullaxi.py:97" */
             1'h1:
-                \$next\write_end  = 1'h1;
+                write_end = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\dma_axi_lite_in7  = 32'd0;
-    \$next\dma_axi_lite_in7  = b16_b64_data_out[31:0];
-  end
-  always @* begin
-    \$next\dma_axi_lite_in8  = 32'd0;
-    \$next\dma_axi_lite_in8  = b16_b64_data_out[63:32];
-  end
-  always @* begin
-    \$next\dma_axi_lite_in9  = 32'd0;
-    \$next\dma_axi_lite_in9  = b64_b32_data_out;
-  end
-  always @* begin
-    \$next\address_gen_read_address_latch  = 1'h0;
-    \$next\address_gen_read_address_latch  = axihp_reader_addr_enable;
-  end
-  always @* begin
-    \$next\address_gen_read_starting_address  = 32'd0;
-    \$next\address_gen_read_starting_address  = dma_axi_lite_read_addr;
-  end
-  always @* begin
-    \$next\address_gen_write_address_latch  = 1'h0;
-    \$next\address_gen_write_address_latch  = axihp_writer_addr_enable;
-  end
-  always @* begin
-    \$next\address_gen_write_starting_address  = 32'd0;
-    \$next\address_gen_write_starting_address  = dma_axi_lite_write_addr;
-  end
-  always @* begin
-    \$next\axihp_reader_enable  = 1'h0;
-    \$next\axihp_reader_enable  = \$44 ;
-  end
-  always @* begin
-    \$next\axihp_reader_data_full  = 1'h0;
-    \$next\axihp_reader_data_full  = \$46 ;
-  end
-  always @* begin
-    \$next\axihp_reader_addr_in  = 32'd0;
-    \$next\axihp_reader_addr_in  = address_gen_read_address_o;
-  end
-  always @* begin
-    \$next\counter_read  = counter_read;
-    casez (\$22 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$233 ) begin end
+    \counter_read$next  = counter_read;
+    (* src = "beta_integration_fullaxi.py:90" *)
+    casez (\$21 )
+      /* src = "beta_integration_fullaxi.py:90" */
       1'h1:
-          casez (\$24 )
+          (* src = "beta_integration_fullaxi.py:91" *)
+          casez (\$23 )
+            /* src = "beta_integration_fullaxi.py:91" */
             1'h1:
                 /* empty */;
-            1'hz:
-                \$next\counter_read  = \$26 [31:0];
+            /* src = "beta_integration_fullaxi.py:93" */
+            default:
+                \counter_read$next  = \$26 [31:0];
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\counter_read  = 32'd0;
+          \counter_read$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\axihp_reader_addr_empty  = 1'h0;
-    \$next\axihp_reader_addr_empty  = \$52 ;
-  end
-  always @* begin
-    \$next\reader_fifo_data_in  = 64'h0000000000000000;
-    \$next\reader_fifo_data_in  = axihp_reader_data_out;
-  end
-  always @* begin
-    \$next\reader_fifo_end_in  = 1'h0;
-    \$next\reader_fifo_end_in  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\reader_fifo_valid_in  = 1'h0;
-    \$next\reader_fifo_valid_in  = axihp_reader_data_enable;
-  end
-  always @* begin
-    \$next\reader_fifo_read  = 1'h0;
-    \$next\reader_fifo_read  = \$54 ;
-  end
-  always @* begin
-    \$next\b64_b32_data_in  = 64'h0000000000000000;
-    \$next\b64_b32_data_in  = reader_fifo_data_out;
-  end
-  always @* begin
-    \$next\b64_b32_valid_in  = 1'h0;
-    \$next\b64_b32_valid_in  = reader_fifo_valid_out;
-  end
-  always @* begin
-    \$next\b64_b32_i_busy  = 1'h0;
-    \$next\b64_b32_i_busy  = top_nready;
-  end
-  always @* begin
-    \$next\top_valid_in  = 1'h0;
-    \$next\top_valid_in  = \$56 ;
-  end
-  always @* begin
-    \$next\top_busy_in  = 1'h0;
-    \$next\top_busy_in  = b16_b64_o_busy;
-  end
-  always @* begin
-    \$next\counter_write  = counter_write;
-    casez (\$33 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$233 ) begin end
+    \counter_write$next  = counter_write;
+    (* src = "beta_integration_fullaxi.py:96" *)
+    casez (\$32 )
+      /* src = "beta_integration_fullaxi.py:96" */
       1'h1:
-          casez (\$35 )
+          (* src = "beta_integration_fullaxi.py:97" *)
+          casez (\$34 )
+            /* src = "beta_integration_fullaxi.py:97" */
             1'h1:
                 /* empty */;
-            1'hz:
-                \$next\counter_write  = \$37 [31:0];
+            /* src = "beta_integration_fullaxi.py:99" */
+            default:
+                \counter_write$next  = \$37 [31:0];
           endcase
     endcase
-    casez (rst)
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (full_rst)
       1'h1:
-          \$next\counter_write  = 32'd0;
+          \counter_write$next  = 32'd0;
     endcase
   end
-  always @* begin
-    \$next\top_pixel_in1  = 12'h000;
-    \$next\top_pixel_in1  = b64_b32_data_out[11:0];
-  end
-  always @* begin
-    \$next\top_pixel_in2  = 12'h000;
-    \$next\top_pixel_in2  = b64_b32_data_out[23:12];
-  end
-  always @* begin
-    \$next\b16_b64_data_in  = 16'h0000;
-    \$next\b16_b64_data_in  = top_data_out;
-  end
-  always @* begin
-    \$next\b16_b64_valid_in  = 1'h0;
-    \$next\b16_b64_valid_in  = top_valid_out;
-  end
-  always @* begin
-    \$next\b16_b64_i_busy  = 1'h0;
-    \$next\b16_b64_i_busy  = \$58 ;
-  end
-  always @* begin
-    \$next\b16_b64_end_in  = 1'h0;
-    \$next\b16_b64_end_in  = top_end_out;
-  end
-  always @* begin
-    \$next\writer_fifo_data_in  = 64'h0000000000000000;
-    \$next\writer_fifo_data_in  = b16_b64_data_out;
-  end
-  always @* begin
-    \$next\writer_fifo_end_in  = 1'h0;
-    \$next\writer_fifo_end_in  = b16_b64_end_out;
-  end
-  always @* begin
-    \$next\writer_fifo_valid_in  = 1'h0;
-    \$next\writer_fifo_valid_in  = b16_b64_valid_out;
-  end
-  always @* begin
-    \$next\writer_fifo_read  = 1'h0;
-    \$next\writer_fifo_read  = axihp_writer_data_enable;
-  end
-  always @* begin
-    \$next\dma_axi_lite_in1  = 32'd0;
-    \$next\dma_axi_lite_in1  = \$40 ;
-  end
-  always @* begin
-    \$next\axihp_writer_enable  = 1'h0;
-    \$next\axihp_writer_enable  = \$60 ;
-  end
-  always @* begin
-    \$next\axihp_writer_data_in  = 64'h0000000000000000;
-    \$next\axihp_writer_data_in  = writer_fifo_data_out;
-  end
-  always @* begin
-    \$next\axihp_writer_data_empty  = 1'h0;
-    \$next\axihp_writer_data_empty  = \$62 ;
-  end
-  always @* begin
-    \$next\axihp_writer_write_strobe  = 8'h00;
-    \$next\axihp_writer_write_strobe  = 8'hff;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\axihp_writer_addr_in  = 32'd0;
-    \$next\axihp_writer_addr_in  = address_gen_write_address_o;
-  end
-  always @* begin
-    \$next\axihp_writer_addr_empty  = 1'h0;
-    \$next\axihp_writer_addr_empty  = \$68 ;
-  end
-  always @* begin
-    \$next\dma_axi_lite_in2  = 32'd0;
-    \$next\dma_axi_lite_in2  = address_gen_read_address_o;
-  end
-  always @* begin
-    \$next\dma_axi_lite_in3  = 32'd0;
-    \$next\dma_axi_lite_in3  = address_gen_write_address_o;
-  end
-  always @* begin
-    \$next\dma_axi_lite_in4  = 32'd0;
-    \$next\dma_axi_lite_in4  = counter_read;
-  end
-  always @* begin
-    \$next\dma_axi_lite_in5  = 32'd0;
-    \$next\dma_axi_lite_in5  = counter_write;
-  end
-  always @* begin
-    \$next\dma_axi_lite_in6  = 32'd0;
-    \$next\dma_axi_lite_in6  = \$42 ;
-  end
-  assign \$26  = \$27 ;
-  assign \$37  = \$38 ;
-  assign axihp_writer_addr_empty = \$next\axihp_writer_addr_empty ;
-  assign axihp_writer_addr_in = \$next\axihp_writer_addr_in ;
-  assign axihp_writer_write_strobe = \$next\axihp_writer_write_strobe ;
-  assign axihp_writer_data_empty = \$next\axihp_writer_data_empty ;
-  assign axihp_writer_data_in = \$next\axihp_writer_data_in ;
-  assign axihp_writer_enable = \$next\axihp_writer_enable ;
-  assign writer_fifo_read = \$next\writer_fifo_read ;
-  assign writer_fifo_valid_in = \$next\writer_fifo_valid_in ;
-  assign writer_fifo_end_in = \$next\writer_fifo_end_in ;
-  assign writer_fifo_data_in = \$next\writer_fifo_data_in ;
-  assign b16_b64_end_in = \$next\b16_b64_end_in ;
-  assign b16_b64_i_busy = \$next\b16_b64_i_busy ;
-  assign b16_b64_valid_in = \$next\b16_b64_valid_in ;
-  assign b16_b64_data_in = \$next\b16_b64_data_in ;
-  assign top_pixel_in2 = \$next\top_pixel_in2 ;
-  assign top_pixel_in1 = \$next\top_pixel_in1 ;
-  assign top_busy_in = \$next\top_busy_in ;
-  assign top_valid_in = \$next\top_valid_in ;
-  assign b64_b32_i_busy = \$next\b64_b32_i_busy ;
-  assign b64_b32_valid_in = \$next\b64_b32_valid_in ;
-  assign b64_b32_data_in = \$next\b64_b32_data_in ;
-  assign reader_fifo_read = \$next\reader_fifo_read ;
-  assign reader_fifo_valid_in = \$next\reader_fifo_valid_in ;
-  assign reader_fifo_end_in = \$next\reader_fifo_end_in ;
-  assign reader_fifo_data_in = \$next\reader_fifo_data_in ;
-  assign axihp_reader_addr_empty = \$next\axihp_reader_addr_empty ;
-  assign axihp_reader_addr_in = \$next\axihp_reader_addr_in ;
-  assign axihp_reader_data_full = \$next\axihp_reader_data_full ;
-  assign axihp_reader_enable = \$next\axihp_reader_enable ;
-  assign address_gen_write_starting_address = \$next\address_gen_write_starting_address ;
-  assign address_gen_write_address_latch = \$next\address_gen_write_address_latch ;
-  assign address_gen_read_starting_address = \$next\address_gen_read_starting_address ;
-  assign address_gen_read_address_latch = \$next\address_gen_read_address_latch ;
-  assign dma_axi_lite_in9 = \$next\dma_axi_lite_in9 ;
-  assign dma_axi_lite_in8 = \$next\dma_axi_lite_in8 ;
-  assign dma_axi_lite_in7 = \$next\dma_axi_lite_in7 ;
-  assign dma_axi_lite_in6 = \$next\dma_axi_lite_in6 ;
-  assign dma_axi_lite_in5 = \$next\dma_axi_lite_in5 ;
-  assign dma_axi_lite_in4 = \$next\dma_axi_lite_in4 ;
-  assign dma_axi_lite_in3 = \$next\dma_axi_lite_in3 ;
-  assign dma_axi_lite_in2 = \$next\dma_axi_lite_in2 ;
-  assign dma_axi_lite_in1 = \$next\dma_axi_lite_in1 ;
-  assign write_end = \$next\write_end ;
-  assign read_end = \$next\read_end ;
+  assign \$25  = \$26 ;
+  assign \$36  = \$37 ;
+  assign axihp_writer_addr_empty = \$67 ;
+  assign axihp_writer_addr_in = address_gen_write_address_o;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign axihp_writer_write_strobe = 8'hff;
+  assign axihp_writer_data_empty = \$61 ;
+  assign axihp_writer_data_in = writer_fifo_data_out;
+  assign axihp_writer_enable = \$59 ;
+  assign writer_fifo_read = axihp_writer_data_enable;
+  assign writer_fifo_valid_in = b16_b64_valid_out;
+  assign writer_fifo_end_in = b16_b64_end_out;
+  assign writer_fifo_data_in = b16_b64_data_out;
+  assign b16_b64_end_in = top_end_out;
+  assign b16_b64_i_busy = \$57 ;
+  assign b16_b64_valid_in = top_valid_out;
+  assign b16_b64_data_in = top_data_out;
+  assign top_pixel_in2 = b64_b32_data_out[23:12];
+  assign top_pixel_in1 = b64_b32_data_out[11:0];
+  assign top_busy_in = b16_b64_o_busy;
+  assign top_valid_in = \$55 ;
+  assign b64_b32_i_busy = top_nready;
+  assign b64_b32_valid_in = reader_fifo_valid_out;
+  assign b64_b32_data_in = reader_fifo_data_out;
+  assign reader_fifo_read = \$53 ;
+  assign reader_fifo_valid_in = axihp_reader_data_enable;
+  assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
+  assign reader_fifo_end_in = 1'h0;
+  assign reader_fifo_data_in = axihp_reader_data_out;
+  assign axihp_reader_addr_empty = \$51 ;
+  assign axihp_reader_addr_in = address_gen_read_address_o;
+  assign axihp_reader_data_full = \$45 ;
+  assign axihp_reader_enable = \$43 ;
+  assign address_gen_write_starting_address = dma_axi_lite_write_addr;
+  assign address_gen_write_address_latch = axihp_writer_addr_enable;
+  assign address_gen_read_starting_address = dma_axi_lite_read_addr;
+  assign address_gen_read_address_latch = axihp_reader_addr_enable;
+  assign dma_axi_lite_in9 = b64_b32_data_out;
+  assign dma_axi_lite_in8 = b16_b64_data_out[63:32];
+  assign dma_axi_lite_in7 = b16_b64_data_out[31:0];
+  assign dma_axi_lite_in6 = \$41 ;
+  assign dma_axi_lite_in5 = counter_write;
+  assign dma_axi_lite_in4 = counter_read;
+  assign dma_axi_lite_in3 = address_gen_write_address_o;
+  assign dma_axi_lite_in2 = address_gen_read_address_o;
+  assign dma_axi_lite_in1 = \$39 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top" *)
 (* generator = "nMigen" *)
-module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data_out, valid_out, end_out, nready, full_clk);
+(* \nmigen.hierarchy  = "top.top" *)
+module \top$1 (nready, valid_in, busy_in, pixel_in1, pixel_in2, valid_out, end_out, full_rst, full_clk, data_out);
+  (* src = "beta_integration.py:131" *)
+  wire \$10 ;
+  (* src = "beta_integration.py:131" *)
+  wire \$12 ;
+  (* src = "beta_integration.py:69" *)
   wire \$2 ;
+  (* src = "beta_integration.py:69" *)
   wire \$4 ;
+  (* src = "beta_integration.py:69" *)
   wire \$6 ;
+  (* src = "beta_integration.py:76" *)
   wire \$8 ;
   (* src = "auto_reset.py:34" *)
-  reg \$next\auto_reset_end_in ;
-  (* src = "auto_reset.py:37" *)
-  reg \$next\auto_reset_hs1_in ;
-  (* src = "auto_reset.py:40" *)
-  reg \$next\auto_reset_hs2_in ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  reg \$next\clk ;
-  (* src = "beta_integration.py:36" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "beta_integration.py:41" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:149" *)
-  reg [31:0] \$next\fix_0xff2_data_in ;
-  (* src = "fix_0xff2.py:150" *)
-  reg [2:0] \$next\fix_0xff2_data_in_ctr ;
-  (* src = "fix_0xff2.py:159" *)
-  reg \$next\fix_0xff2_end_in ;
-  (* src = "fix_0xff2.py:163" *)
-  reg \$next\fix_0xff2_i_busy ;
-  (* src = "fix_0xff2.py:156" *)
-  reg \$next\fix_0xff2_valid_in ;
-  (* src = "fix_0xff.py:69" *)
-  reg [15:0] \$next\fix_0xff_data_in ;
-  (* src = "fix_0xff.py:81" *)
-  reg \$next\fix_0xff_end_in ;
-  (* src = "fix_0xff.py:79" *)
-  reg \$next\fix_0xff_i_busy ;
-  (* src = "fix_0xff.py:76" *)
-  reg \$next\fix_0xff_valid_in ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\integration_3_busy_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in$1 ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\integration_3_valid_in ;
-  (* src = "markers.py:35" *)
-  reg [15:0] \$next\markers_data_in ;
-  (* src = "markers.py:44" *)
-  reg \$next\markers_end_in ;
-  (* src = "markers.py:45" *)
-  reg \$next\markers_force_end_in ;
-  (* src = "markers.py:49" *)
-  reg \$next\markers_i_busy ;
-  (* src = "markers.py:41" *)
-  reg \$next\markers_valid_in ;
-  (* src = "beta_integration.py:42" *)
-  reg \$next\nready ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\rst ;
-  (* src = "beta_integration.py:40" *)
-  reg \$next\valid_out ;
-  (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
   (* src = "auto_reset.py:37" *)
   wire auto_reset_hs1_in;
@@ -12256,12 +14317,13 @@ module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data
   wire auto_reset_reset_out;
   (* src = "beta_integration.py:43" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  output clk;
+  wire busy_in;
   (* src = "beta_integration.py:36" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "beta_integration.py:41" *)
   output end_out;
+  wire end_out;
   (* src = "fix_0xff2.py:149" *)
   wire [31:0] fix_0xff2_data_in;
   (* src = "fix_0xff2.py:150" *)
@@ -12300,25 +14362,31 @@ module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data
   wire fix_0xff_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3.py:32" *)
+  wire full_rst;
+  (* src = "integration_3.py:33" *)
   wire integration_3_busy_in;
-  (* src = "integration_3.py:25" *)
+  (* src = "clk_domains.py:5" *)
+  wire integration_3_clk;
+  (* src = "integration_3.py:26" *)
   wire [15:0] integration_3_data_out;
-  (* src = "integration_3.py:30" *)
+  (* src = "integration_3.py:31" *)
   wire integration_3_end_out;
-  (* src = "integration_1.py:35" *)
+  (* src = "integration_1.py:36" *)
   wire integration_3_fend_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   wire integration_3_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] integration_3_pixel_in;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \integration_3_pixel_in$1 ;
-  (* src = "integration_3.py:28" *)
-  wire integration_3_valid_in;
+  (* src = "clk_domains.py:5" *)
+  wire integration_3_rst;
   (* src = "integration_3.py:29" *)
+  wire integration_3_valid_in;
+  (* src = "integration_3.py:30" *)
   wire integration_3_valid_out;
   (* src = "markers.py:35" *)
   wire [15:0] markers_data_in;
@@ -12340,30 +14408,35 @@ module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data
   wire markers_valid_out;
   (* src = "beta_integration.py:42" *)
   output nready;
+  wire nready;
   (* src = "beta_integration.py:32" *)
   input [11:0] pixel_in1;
+  wire [11:0] pixel_in1;
   (* src = "beta_integration.py:33" *)
   input [11:0] pixel_in2;
-  (* src = "clk_domains.py:5" *)
-  output rst;
+  wire [11:0] pixel_in2;
   (* src = "beta_integration.py:39" *)
   input valid_in;
+  wire valid_in;
   (* src = "beta_integration.py:40" *)
   output valid_out;
+  wire valid_out;
+  assign \$10  = auto_reset_reset_out == (* src = "beta_integration.py:131" *) 1'h0;
+  assign \$12  = markers_valid_out & (* src = "beta_integration.py:131" *) \$10 ;
   assign \$2  = auto_reset_reset_out == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
   assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
   assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
   auto_reset auto_reset (
-    .clk(clk),
+    .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
     .hs1_in(auto_reset_hs1_in),
     .hs2_in(auto_reset_hs2_in),
     .reset_out(auto_reset_reset_out),
-    .rst(rst)
+    .rst(integration_3_rst)
   );
   fix_0xff fix_0xff (
-    .clk(clk),
+    .clk(integration_3_clk),
     .data_in(fix_0xff_data_in),
     .data_out(fix_0xff_data_out),
     .data_out_ctr(fix_0xff_data_out_ctr),
@@ -12371,326 +14444,183 @@ module \top$1 (full_rst, busy_in, pixel_in1, pixel_in2, valid_in, clk, rst, data
     .end_out(fix_0xff_end_out),
     .i_busy(fix_0xff_i_busy),
     .o_busy(fix_0xff_o_busy),
-    .rst(rst),
+    .rst(integration_3_rst),
     .valid_in(fix_0xff_valid_in),
     .valid_out(fix_0xff_valid_out)
-  );
-  fix_0xff2 fix_0xff2 (
-    .clk(clk),
-    .data_in(fix_0xff2_data_in),
-    .data_in_ctr(fix_0xff2_data_in_ctr),
-    .data_out(fix_0xff2_data_out),
-    .end_in(fix_0xff2_end_in),
-    .end_out(fix_0xff2_end_out),
-    .i_busy(fix_0xff2_i_busy),
-    .o_busy(fix_0xff2_o_busy),
-    .rst(rst),
-    .valid_in(fix_0xff2_valid_in),
-    .valid_out(fix_0xff2_valid_out)
-  );
-  integration_3 integration_3 (
-    .busy_in(integration_3_busy_in),
-    .clk(clk),
-    .data_out(integration_3_data_out),
-    .end_out(integration_3_end_out),
-    .fend_out(integration_3_fend_out),
-    .full_clk(full_clk),
-    .full_rst(full_rst),
-    .nready(integration_3_nready),
-    .pixel_in(integration_3_pixel_in),
-    .\pixel_in$1 (\integration_3_pixel_in$1 ),
-    .rst(rst),
-    .valid_in(integration_3_valid_in),
-    .valid_out(integration_3_valid_out)
-  );
-  markers markers (
-    .clk(clk),
-    .data_in(markers_data_in),
-    .data_out(markers_data_out),
-    .end_in(markers_end_in),
-    .end_out(markers_end_out),
-    .force_end_in(markers_force_end_in),
-    .i_busy(markers_i_busy),
-    .o_busy(markers_o_busy),
-    .rst(rst),
-    .valid_in(markers_valid_in),
-    .valid_out(markers_valid_out)
-  );
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
-  always @* begin
-    \$next\rst  = 1'h0;
-    \$next\rst  = \$6 ;
-  end
-  always @* begin
-    \$next\fix_0xff_valid_in  = 1'h0;
-    \$next\fix_0xff_valid_in  = integration_3_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff_end_in  = 1'h0;
-    \$next\fix_0xff_end_in  = integration_3_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff_i_busy  = 1'h0;
-    \$next\fix_0xff_i_busy  = fix_0xff2_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in  = 32'd0;
-    \$next\fix_0xff2_data_in  = fix_0xff_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_valid_in  = 1'h0;
-    \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_end_in  = 1'h0;
-    \$next\fix_0xff2_end_in  = fix_0xff_end_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = markers_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in_ctr  = 3'h0;
-    \$next\fix_0xff2_data_in_ctr  = fix_0xff_data_out_ctr;
-  end
-  always @* begin
-    \$next\markers_data_in  = 16'h0000;
-    \$next\markers_data_in  = fix_0xff2_data_out;
-  end
-  always @* begin
-    \$next\markers_valid_in  = 1'h0;
-    \$next\markers_valid_in  = fix_0xff2_valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_end_in  = 1'h0;
-    \$next\auto_reset_end_in  = end_out;
-  end
-  always @* begin
-    \$next\markers_force_end_in  = 1'h0;
-    \$next\markers_force_end_in  = integration_3_fend_out;
-  end
-  always @* begin
-    \$next\markers_end_in  = 1'h0;
-    \$next\markers_end_in  = fix_0xff2_end_out;
-  end
-  always @* begin
-    \$next\markers_i_busy  = 1'h0;
-    \$next\markers_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = markers_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = markers_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_3_nready;
-  end
-  always @* begin
-    \$next\auto_reset_hs1_in  = 1'h0;
-    \$next\auto_reset_hs1_in  = valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_hs2_in  = 1'h0;
-    \$next\auto_reset_hs2_in  = \$8 ;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in  = 12'h000;
-    \$next\integration_3_pixel_in  = pixel_in1;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in$1  = 12'h000;
-    \$next\integration_3_pixel_in$1  = pixel_in2;
-  end
-  always @* begin
-    \$next\integration_3_valid_in  = 1'h0;
-    \$next\integration_3_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_3_busy_in  = 1'h0;
-    \$next\integration_3_busy_in  = fix_0xff_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff_data_in  = 16'h0000;
-    \$next\fix_0xff_data_in  = integration_3_data_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign markers_i_busy = \$next\markers_i_busy ;
-  assign markers_end_in = \$next\markers_end_in ;
-  assign markers_force_end_in = \$next\markers_force_end_in ;
-  assign markers_valid_in = \$next\markers_valid_in ;
-  assign markers_data_in = \$next\markers_data_in ;
-  assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
-  assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
-  assign fix_0xff2_end_in = \$next\fix_0xff2_end_in ;
-  assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
-  assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
-  assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
-  assign fix_0xff_end_in = \$next\fix_0xff_end_in ;
-  assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
-  assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
-  assign integration_3_busy_in = \$next\integration_3_busy_in ;
-  assign integration_3_valid_in = \$next\integration_3_valid_in ;
-  assign \integration_3_pixel_in$1  = \$next\integration_3_pixel_in$1 ;
-  assign integration_3_pixel_in = \$next\integration_3_pixel_in ;
-  assign auto_reset_hs2_in = \$next\auto_reset_hs2_in ;
-  assign auto_reset_hs1_in = \$next\auto_reset_hs1_in ;
-  assign auto_reset_end_in = \$next\auto_reset_end_in ;
-  assign rst = \$next\rst ;
-  assign clk = \$next\clk ;
+  );
+  fix_0xff2 fix_0xff2 (
+    .clk(integration_3_clk),
+    .data_in(fix_0xff2_data_in),
+    .data_in_ctr(fix_0xff2_data_in_ctr),
+    .data_out(fix_0xff2_data_out),
+    .end_in(fix_0xff2_end_in),
+    .end_out(fix_0xff2_end_out),
+    .i_busy(fix_0xff2_i_busy),
+    .o_busy(fix_0xff2_o_busy),
+    .rst(integration_3_rst),
+    .valid_in(fix_0xff2_valid_in),
+    .valid_out(fix_0xff2_valid_out)
+  );
+  integration_3 integration_3 (
+    .busy_in(integration_3_busy_in),
+    .clk(integration_3_clk),
+    .data_out(integration_3_data_out),
+    .end_out(integration_3_end_out),
+    .fend_out(integration_3_fend_out),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .nready(integration_3_nready),
+    .pixel_in(integration_3_pixel_in),
+    .\pixel_in$1 (\integration_3_pixel_in$1 ),
+    .rst(integration_3_rst),
+    .valid_in(integration_3_valid_in),
+    .valid_out(integration_3_valid_out)
+  );
+  markers markers (
+    .clk(integration_3_clk),
+    .data_in(markers_data_in),
+    .data_out(markers_data_out),
+    .end_in(markers_end_in),
+    .end_out(markers_end_out),
+    .force_end_in(markers_force_end_in),
+    .i_busy(markers_i_busy),
+    .o_busy(markers_o_busy),
+    .rst(integration_3_rst),
+    .valid_in(markers_valid_in),
+    .valid_out(markers_valid_out)
+  );
+  assign nready = integration_3_nready;
+  assign end_out = markers_end_out;
+  assign valid_out = \$12 ;
+  assign data_out = markers_data_out;
+  assign markers_i_busy = busy_in;
+  assign markers_end_in = fix_0xff2_end_out;
+  assign markers_force_end_in = integration_3_fend_out;
+  assign markers_valid_in = fix_0xff2_valid_out;
+  assign markers_data_in = fix_0xff2_data_out;
+  assign fix_0xff2_data_in_ctr = fix_0xff_data_out_ctr;
+  assign fix_0xff2_i_busy = markers_o_busy;
+  assign fix_0xff2_end_in = fix_0xff_end_out;
+  assign fix_0xff2_valid_in = fix_0xff_valid_out;
+  assign fix_0xff2_data_in = fix_0xff_data_out;
+  assign fix_0xff_i_busy = fix_0xff2_o_busy;
+  assign fix_0xff_end_in = integration_3_end_out;
+  assign fix_0xff_valid_in = integration_3_valid_out;
+  assign fix_0xff_data_in = integration_3_data_out;
+  assign integration_3_busy_in = fix_0xff_o_busy;
+  assign integration_3_valid_in = valid_in;
+  assign \integration_3_pixel_in$1  = pixel_in2;
+  assign integration_3_pixel_in = pixel_in1;
+  assign auto_reset_hs2_in = \$8 ;
+  assign auto_reset_hs1_in = valid_out;
+  assign auto_reset_end_in = end_out;
+  assign integration_3_rst = \$6 ;
+  assign integration_3_clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$234  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [62:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [62:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [62:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [62:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [62:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [62:0] r_data;
+  wire [62:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [62:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [62:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [62:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [62:0] w_data;
+  wire [62:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [62:0] storage [510:0];
   initial begin
     storage[0] = 63'h0000000000000000;
@@ -13205,238 +15135,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[509] = 63'h0000000000000000;
     storage[510] = 63'h0000000000000000;
   end
-  reg [62:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [62:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$234 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
+    if (\$auto$verilog_backend.cc:2184:dump_module$234 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 63'h0000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
-      1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 63'h0000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$234 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$7 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$6 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$235  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [35:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [35:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [35:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [35:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [35:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [35:0] r_data;
+  wire [35:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [35:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [35:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [35:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [35:0] w_data;
+  wire [35:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [35:0] storage [510:0];
   initial begin
     storage[0] = 36'h000000000;
@@ -13951,145 +15855,133 @@ module \unbuffered$7 (we, replace, re, rst, clk, writable, readable, dout, level
     storage[509] = 36'h000000000;
     storage[510] = 36'h000000000;
   end
-  reg [35:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
-  end
-  always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+  reg [35:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$235 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
+    if (\$auto$verilog_backend.cc:2184:dump_module$235 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 36'h000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
-      1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 36'h000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$235 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top.integration_3.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [29:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [4:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [6:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [6:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [76:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.top.integration_3.vbits_to_cbits" *)
+module vbits_to_cbits(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, clk);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [29:0] enc_in;
+  wire [29:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [6:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -14112,6 +16004,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [6:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -14132,10 +16025,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -14162,208 +16058,102 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 30'h00000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 5'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 77'h00000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 7'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 7'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
-(* \nmigen.hierarchy  = "top.writer_fifo" *)
 (* generator = "nMigen" *)
-module writer_fifo(end_in, data_in, read, replace, rst, clk, writable, readable16, data_out, end_out, valid_out, valid_in);
+(* \nmigen.hierarchy  = "top.writer_fifo" *)
+module writer_fifo(valid_out, writable, data_in, end_in, valid_in, read, data_out, readable16, full_rst, full_clk, end_out);
+  (* src = "axihp_fifo.py:54" *)
   wire \$1 ;
+  (* src = "axihp_fifo.py:55" *)
   wire \$3 ;
-  (* src = "axihp_fifo.py:11" *)
-  reg [63:0] \$next\data_out ;
-  (* src = "axihp_fifo.py:14" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [64:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "axihp_fifo.py:22" *)
-  reg \$next\readable ;
-  (* src = "axihp_fifo.py:25" *)
-  reg \$next\readable16 ;
-  (* src = "axihp_fifo.py:17" *)
-  reg \$next\valid_out ;
-  (* src = "axihp_fifo.py:21" *)
-  reg \$next\writable ;
-  (* src = "axihp_fifo.py:24" *)
-  reg \$next\writable16 ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
   (* src = "axihp_fifo.py:10" *)
   input [63:0] data_in;
+  wire [63:0] data_in;
   (* src = "axihp_fifo.py:11" *)
   output [63:0] data_out;
+  wire [63:0] data_out;
   (* src = "axihp_fifo.py:13" *)
   input end_in;
+  wire end_in;
   (* src = "axihp_fifo.py:14" *)
   output end_out;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [64:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [64:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire end_out;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [5:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [64:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [64:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
+  (* src = "clk_domains.py:4" *)
+  input full_clk;
+  wire full_clk;
+  (* src = "clk_domains.py:4" *)
+  input full_rst;
+  wire full_rst;
   (* src = "axihp_fifo.py:19" *)
   input read;
+  wire read;
   (* src = "axihp_fifo.py:22" *)
   wire readable;
   (* src = "axihp_fifo.py:25" *)
   output readable16;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "clk_domains.py:5" *)
-  input rst;
+  wire readable16;
   (* src = "axihp_fifo.py:16" *)
   input valid_in;
+  wire valid_in;
   (* src = "axihp_fifo.py:17" *)
   output valid_out;
+  wire valid_out;
   (* src = "axihp_fifo.py:21" *)
   output writable;
+  wire writable;
   (* src = "axihp_fifo.py:24" *)
   wire writable16;
   assign \$1  = fifo_level >= (* src = "axihp_fifo.py:54" *) 5'h10;
   assign \$3  = fifo_level <= (* src = "axihp_fifo.py:55" *) 4'hc;
-  \fifo$9  fifo (
-    .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
+  \fifo$8  fifo (
+    .full_clk(full_clk),
+    .full_rst(full_rst),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
-    .replace(replace),
-    .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
-  always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 65'h00000000000000000;
-    \$next\fifo_din  = { data_in, end_in };
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = read;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = fifo_readable;
-  end
-  always @* begin
-    \$next\readable16  = 1'h0;
-    \$next\readable16  = \$1 ;
-  end
-  always @* begin
-    \$next\writable16  = 1'h0;
-    \$next\writable16  = \$3 ;
-  end
-  always @* begin
-    \$next\data_out  = 64'h0000000000000000;
-    \$next\data_out  = fifo_dout[64:1];
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = fifo_dout[0];
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  assign valid_out = \$next\valid_out ;
-  assign end_out = \$next\end_out ;
-  assign data_out = \$next\data_out ;
-  assign writable16 = \$next\writable16 ;
-  assign readable16 = \$next\readable16 ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
-  assign fifo_re = \$next\fifo_re ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign valid_out = fifo_r_rdy;
+  assign end_out = fifo_r_data[0];
+  assign data_out = fifo_r_data[64:1];
+  assign writable16 = \$3 ;
+  assign readable16 = \$1 ;
+  assign readable = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_r_en = read;
+  assign fifo_w_data = { data_in, end_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
diff --git a/verilog_src/converter.v b/verilog_src/converter.v
index d65b195..336bb27 100644
--- a/verilog_src/converter.v
+++ b/verilog_src/converter.v
@@ -1,118 +1,144 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, latch_output, enc_in, enc_in_ctr, in_end, valid_in, close_full);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk, rst, latch_output);
+  reg \$auto$verilog_backend.cc:2184:dump_module$13  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [35:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [6:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [35:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [5:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [5:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [35:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [61:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 36'h000000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [35:0] enc_in;
   reg [35:0] enc_in = 36'h000000000;
-  (* init = 6'h00 *)
+  (* src = "converter.py:66" *)
+  reg [35:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [5:0] enc_in_ctr;
   reg [5:0] enc_in_ctr = 6'h00;
+  (* src = "converter.py:67" *)
+  reg [5:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [61:0] enc_out;
+  wire [61:0] enc_out;
   (* src = "converter.py:61" *)
   input [5:0] enc_out_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [5:0] enc_out_ctr_reg = 6'h00;
-  (* init = 36'h000000000 *)
+  (* src = "converter.py:95" *)
+  reg [5:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [35:0] enc_out_latch = 36'h000000000;
-  (* init = 62'h0000000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [35:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [61:0] enc_out_reg = 62'h0000000000000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [61:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h24;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -133,7 +159,7 @@ module top(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, latch_output, enc
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h24;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h3e;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[61:36];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[61:36];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h24;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h3e;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 6'h24;
@@ -143,300 +169,515 @@ module top(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, latch_output, enc
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[35:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[35:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 36'h000000000;
+          \enc_out_latch$next  = 36'h000000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 62'h0000000000000000;
+          \enc_out_reg$next  = 62'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 6'h00;
+          \enc_out_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[35:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[35:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 36'h000000000;
+          \enc_in$next  = 36'h000000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg;
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg;
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 6'h24;
+                      \enc_in_ctr$next  = 6'h24;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [5:0];
+                            \enc_in_ctr$next  = \$52 [5:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 6'h24;
+          \enc_in_ctr$next  = 6'h24;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 6'h00;
+          \enc_in_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$13 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
diff --git a/verilog_src/converter_fifo.v b/verilog_src/converter_fifo.v
index 9a63cd7..edf88de 100644
--- a/verilog_src/converter_fifo.v
+++ b/verilog_src/converter_fifo.v
@@ -1,402 +1,301 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.fifo" *)
+module fifo(w_data, w_rdy, r_rdy, r_data, r_en, level, rst, clk, w_en);
+  reg \$auto$verilog_backend.cc:2184:dump_module$6  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [7:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [42:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [42:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [42:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [42:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [7:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire [7:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [42:0] r_data;
+  wire [42:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [42:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [42:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [6:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [42:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [42:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [42:0] w_data;
+  wire [42:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 43'h00000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 43'h00000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$6 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 8'h00;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, enc_out, enc_out_ctr, out_end, valid_out, writable, close_full, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(enc_in_ctr, in_end, valid_in, enc_out, enc_out_ctr, out_end, valid_out, latch_output, writable, close_full, clk, rst, enc_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$7  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [35:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [42:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [35:0] enc_in;
+  wire [35:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [35:0] enc_out;
+  wire [35:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [42:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [42:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [7:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [42:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [42:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire out_end;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   output writable;
+  wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 7'h7b;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 43'h00000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 36'h000000000;
-    \$next\enc_out  = fifo_dout[35:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[41:36];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[42];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[42];
+  assign enc_out_ctr = fifo_r_data[41:36];
+  assign enc_out = fifo_r_data[35:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.fifo.unbuffered" *)
+module unbuffered(clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$8  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [7:0] \$23 ;
-  wire [7:0] \$24 ;
-  wire [7:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [7:0] \$32 ;
-  wire [7:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [7:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [7:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [7:0] \$51 ;
-  wire [7:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [7:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [7:0] \$66 ;
-  wire [7:0] \$67 ;
-  wire [7:0] \$7 ;
-  wire [7:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [6:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [42:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [6:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [6:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [6:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [6:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [42:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [6:0] consume = 7'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [42:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [42:0] dout;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [6:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [6:0] level;
   reg [6:0] level = 7'h00;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [6:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [6:0] produce = 7'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [6:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [42:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [6:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [42:0] r_data;
+  wire [42:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [6:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [42:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 8'h7e : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 8'h00 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 7'h7f;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 8'h00 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [6:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [42:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [6:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [42:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [42:0] w_data;
+  wire [42:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [42:0] storage [126:0];
   initial begin
     storage[0] = 43'h00000000000;
@@ -527,97 +426,106 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[125] = 43'h00000000000;
     storage[126] = 43'h00000000000;
   end
-  reg [42:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+  reg [42:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
   end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 7'h7f;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$8 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [6:0];
+          \level$next  = \$35 [6:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [6:0];
+          \level$next  = \$46 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 7'h00;
+          \level$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_addr  = 7'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [6:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 43'h00000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$8 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [6:0];
+          \produce$next  = \$13 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 7'h00;
+          \produce$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 7'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 43'h00000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$8 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [6:0];
+          \consume$next  = \$22 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 7'h00;
+          \consume$next  = 7'h00;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
diff --git a/verilog_src/core_axi_lite.v b/verilog_src/core_axi_lite.v
index 983a00b..7389454 100644
--- a/verilog_src/core_axi_lite.v
+++ b/verilog_src/core_axi_lite.v
@@ -1,78 +1,90 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.debug_module" *)
 (* generator = "nMigen" *)
-module debug_module(full_rst, full_clk, \$signal , \$signal$1 , \$signal$2 , \$signal$3 , \$signal$4 , \$signal$5 , \$signal$6 , \$signal$7 , regs_en);
+(* \nmigen.hierarchy  = "top.debug_module" *)
+module debug_module(\$signal , \$signal$1 , \$signal$2 , \$signal$3 , \$signal$4 , \$signal$5 , \$signal$6 , \$signal$7 , full_clk, full_rst, regs_en);
+  reg \$auto$verilog_backend.cc:2184:dump_module$25  = 0;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$11 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$12 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$14 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$15 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$17 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$18 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$20 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$21 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$23 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$24 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$26 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$27 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$29 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$30 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$8 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$9 ;
   (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$1 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$2 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$3 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$4 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$5 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$6 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$7 ;
-  (* init = 32'd0 *)
-  (* src = "debug_module.py:36" *)
   output [31:0] \$signal ;
   reg [31:0] \$signal  = 32'd0;
-  (* init = 32'd0 *)
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$1 ;
   reg [31:0] \$signal$1  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$1$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$2 ;
   reg [31:0] \$signal$2  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$2$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$3 ;
   reg [31:0] \$signal$3  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$3$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$4 ;
   reg [31:0] \$signal$4  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$4$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$5 ;
   reg [31:0] \$signal$5  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$5$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$6 ;
   reg [31:0] \$signal$6  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$6$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$7 ;
   reg [31:0] \$signal$7  = 32'd0;
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$7$next ;
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "debug_module.py:37" *)
   input [7:0] regs_en;
+  wire [7:0] regs_en;
   assign \$9  = \$signal  + (* src = "debug_module.py:52" *) 1'h1;
   assign \$12  = \$signal$1  + (* src = "debug_module.py:52" *) 1'h1;
   assign \$15  = \$signal$2  + (* src = "debug_module.py:52" *) 1'h1;
@@ -82,107 +94,139 @@ module debug_module(full_rst, full_clk, \$signal , \$signal$1 , \$signal$2 , \$s
   assign \$27  = \$signal$6  + (* src = "debug_module.py:52" *) 1'h1;
   assign \$30  = \$signal$7  + (* src = "debug_module.py:52" *) 1'h1;
   always @(posedge full_clk)
-      \$signal$7  <= \$next$signal$7 ;
+    \$signal$7  <= \$signal$7$next ;
   always @(posedge full_clk)
-      \$signal$6  <= \$next$signal$6 ;
+    \$signal$6  <= \$signal$6$next ;
   always @(posedge full_clk)
-      \$signal$5  <= \$next$signal$5 ;
+    \$signal$5  <= \$signal$5$next ;
   always @(posedge full_clk)
-      \$signal$4  <= \$next$signal$4 ;
+    \$signal$4  <= \$signal$4$next ;
   always @(posedge full_clk)
-      \$signal$3  <= \$next$signal$3 ;
+    \$signal$3  <= \$signal$3$next ;
   always @(posedge full_clk)
-      \$signal$2  <= \$next$signal$2 ;
+    \$signal$2  <= \$signal$2$next ;
   always @(posedge full_clk)
-      \$signal$1  <= \$next$signal$1 ;
+    \$signal$1  <= \$signal$1$next ;
   always @(posedge full_clk)
-      \$signal  <= \$next$signal ;
+    \$signal  <= \$signal$next ;
   always @* begin
-    \$next$signal  = \$signal ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$next  = \$signal ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[0])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal  = \$8 [31:0];
+          \$signal$next  = \$9 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal  = 32'd0;
+          \$signal$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$1  = \$signal$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$1$next  = \$signal$1 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[1])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$1  = \$11 [31:0];
+          \$signal$1$next  = \$12 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$1  = 32'd0;
+          \$signal$1$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$2  = \$signal$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$2$next  = \$signal$2 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[2])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$2  = \$14 [31:0];
+          \$signal$2$next  = \$15 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$2  = 32'd0;
+          \$signal$2$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$3  = \$signal$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$3$next  = \$signal$3 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[3])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$3  = \$17 [31:0];
+          \$signal$3$next  = \$18 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$3  = 32'd0;
+          \$signal$3$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$4  = \$signal$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$4$next  = \$signal$4 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[4])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$4  = \$20 [31:0];
+          \$signal$4$next  = \$21 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$4  = 32'd0;
+          \$signal$4$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$5  = \$signal$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$5$next  = \$signal$5 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[5])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$5  = \$23 [31:0];
+          \$signal$5$next  = \$24 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$5  = 32'd0;
+          \$signal$5$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$6  = \$signal$6 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$6$next  = \$signal$6 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[6])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$6  = \$26 [31:0];
+          \$signal$6$next  = \$27 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$6  = 32'd0;
+          \$signal$6$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$7  = \$signal$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$25 ) begin end
+    \$signal$7$next  = \$signal$7 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[7])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$7  = \$29 [31:0];
+          \$signal$7$next  = \$30 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$7  = 32'd0;
+          \$signal$7$next  = 32'd0;
     endcase
   end
   assign \$8  = \$9 ;
@@ -195,172 +239,210 @@ module debug_module(full_rst, full_clk, \$signal , \$signal$1 , \$signal$2 , \$s
   assign \$29  = \$30 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, height, width, allowed_cycles, wp_addr, wp_data, wp_en, rp_addr, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid, debug_en);
-  wire \$100 ;
-  wire \$102 ;
-  wire \$104 ;
-  wire \$106 ;
-  wire \$108 ;
-  wire \$110 ;
-  wire \$112 ;
-  wire \$114 ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(s_axi_areset_n, height, width, allowed_cycles, wp_addr, wp_data, wp_en, rp_addr, rp_data, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_ri__araddr, s_axi_ri__arprot, s_axi_ri__arvalid, s_axi_ri__rready, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid
+, s_axi_wi__awaddr, s_axi_wi__awprot, s_axi_wi__awvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__wvalid, s_axi_wi__bready, debug_en, full_clk, full_rst, rst, s_axi_aclk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$26  = 0;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$101 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$103 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$105 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$107 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$109 ;
+  (* src = "core_axi_lite.py:380" *)
+  wire \$111 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$113 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$114 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$116 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$118 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$120 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$122 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$124 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$126 ;
+  (* src = "core_axi_lite.py:376" *)
   wire \$128 ;
+  (* src = "core_axi_lite.py:380" *)
   wire \$130 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$132 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$134 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$136 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$138 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$140 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$142 ;
+  (* src = "core_axi_lite.py:376" *)
   wire \$144 ;
+  (* src = "core_axi_lite.py:380" *)
   wire \$146 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$148 ;
-  wire [63:0] \$15 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$15 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$150 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$152 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$154 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$156 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$158 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$160 ;
+  (* src = "core_axi_lite.py:380" *)
+  wire \$162 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$164 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$166 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$168 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$17 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$170 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$172 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$174 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$176 ;
+  (* src = "core_axi_lite.py:380" *)
+  wire \$178 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$180 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$182 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$184 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$186 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$188 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$19 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$190 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$192 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$194 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$196 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$198 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$200 ;
+  (* src = "core_axi_lite.py:380" *)
+  wire \$202 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$204 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$206 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$208 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$21 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$23 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$25 ;
-  wire \$27 ;
-  wire [7:0] \$29 ;
-  wire [7:0] \$31 ;
-  wire [7:0] \$33 ;
-  wire [7:0] \$35 ;
-  wire [31:0] \$37 ;
-  wire [31:0] \$39 ;
-  wire [31:0] \$41 ;
-  wire [31:0] \$42 ;
-  wire [31:0] \$44 ;
-  wire [31:0] \$45 ;
+  (* src = "core_axi_lite.py:101" *)
+  wire [63:0] \$27 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$29 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$31 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$33 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$35 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$37 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$39 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$41 ;
+  (* src = "core_axi_lite.py:380" *)
+  wire \$43 ;
+  (* src = "core_axi_lite.py:251" *)
+  wire \$45 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$47 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$49 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$51 ;
-  wire \$53 ;
-  wire \$55 ;
-  wire \$57 ;
-  wire \$59 ;
+  (* src = "core_axi_lite.py:309" *)
+  wire [31:0] \$53 ;
+  (* src = "core_axi_lite.py:348" *)
+  wire [31:0] \$55 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$57 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$58 ;
+  (* src = "core_axi_lite.py:349" *)
+  wire [31:0] \$60 ;
+  (* src = "core_axi_lite.py:349" *)
   wire [31:0] \$61 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$63 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$65 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$67 ;
+  (* src = "core_axi_lite.py:330" *)
   wire \$69 ;
+  (* src = "core_axi_lite.py:334" *)
   wire \$71 ;
+  (* src = "core_axi_lite.py:242" *)
   wire \$73 ;
+  (* src = "core_axi_lite.py:213" *)
   wire \$75 ;
-  wire \$77 ;
+  (* src = "core_axi_lite.py:84" *)
+  wire [31:0] \$77 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$79 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$81 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$83 ;
-  wire [5:0] \$85 ;
-  wire [5:0] \$86 ;
-  wire \$88 ;
-  wire \$90 ;
-  wire \$92 ;
-  wire \$94 ;
-  wire \$96 ;
-  wire \$98 ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal$10 ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal$11 ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal$12 ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal$13 ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal$14 ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal$8 ;
-  (* src = "core_axi_lite.py:152" *)
-  reg [31:0] \$next$signal$9 ;
-  (* src = "core_axi_lite.py:162" *)
-  reg [31:0] \$next\addr_v ;
-  (* src = "core_axi_lite.py:84" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "core_axi_lite.py:164" *)
-  reg \$next\arready_v ;
-  (* src = "core_axi_lite.py:167" *)
-  reg \$next\awready_v ;
-  (* src = "core_axi_lite.py:174" *)
-  reg [1:0] \$next\bresp_v ;
-  (* src = "core_axi_lite.py:169" *)
-  reg \$next\bvalid_v ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\clk ;
-  (* src = "core_axi_lite.py:188" *)
-  reg \$next\debug_enable ;
-  (* src = "core_axi_lite.py:190" *)
-  reg [2:0] \$next\debug_index ;
-  (* src = "debug_module.py:37" *)
-  reg [7:0] \$next\debug_module_regs_en ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [3:0] \$next\fsm_state ;
-  (* src = "core_axi_lite.py:80" *)
-  reg [15:0] \$next\height ;
-  (* src = "core_axi_lite.py:111" *)
-  reg [31:0] \$next\height_width ;
-  (* src = "core_axi_lite.py:187" *)
-  reg \$next\hw_enable ;
-  (* src = "core_axi_lite.py:191" *)
-  reg \$next\hw_index ;
-  (* src = "core_axi_lite.py:171" *)
-  reg [31:0] \$next\rdata_v ;
-  (* src = "core_axi_lite.py:100" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "core_axi_lite.py:207" *)
-  reg [63:0] \$next\rp_data64 ;
-  (* src = "core_axi_lite.py:206" *)
-  reg [63:0] \$next\rp_data64_in ;
-  (* src = "core_axi_lite.py:172" *)
-  reg [1:0] \$next\rresp_v ;
-  (* src = "core_axi_lite.py:165" *)
-  reg \$next\rvalid_v ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__arready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\s_axi_ro__rdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_ro__rresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__rvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__awready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_wo__bresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__bvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__wready ;
-  (* src = "core_axi_lite.py:186" *)
-  reg \$next\ssss_enable ;
-  (* src = "core_axi_lite.py:189" *)
-  reg [5:0] \$next\ssss_index ;
-  (* src = "core_axi_lite.py:177" *)
-  reg [31:0] \$next\wdata_v ;
-  (* src = "core_axi_lite.py:81" *)
-  reg [15:0] \$next\width ;
-  (* src = "core_axi_lite.py:95" *)
-  reg [4:0] \$next\wp_addr ;
-  (* src = "core_axi_lite.py:96" *)
-  reg [32:0] \$next\wp_data ;
-  (* src = "core_axi_lite.py:97" *)
-  reg \$next\wp_en ;
-  (* src = "core_axi_lite.py:168" *)
-  reg \$next\wready_v ;
-  (* src = "core_axi_lite.py:178" *)
-  reg [3:0] \$next\wstrb_v ;
+  (* src = "core_axi_lite.py:330" *)
+  wire \$85 ;
+  (* src = "core_axi_lite.py:334" *)
+  wire \$87 ;
+  (* src = "core_axi_lite.py:213" *)
+  wire \$89 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$91 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$93 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$95 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$97 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$99 ;
   (* src = "core_axi_lite.py:152" *)
   wire [31:0] \$signal ;
   (* src = "core_axi_lite.py:152" *)
@@ -377,29 +459,36 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   wire [31:0] \$signal$8 ;
   (* src = "core_axi_lite.py:152" *)
   wire [31:0] \$signal$9 ;
-  (* init = 32'd0 *)
   (* src = "core_axi_lite.py:162" *)
   reg [31:0] addr_v = 32'd0;
-  (* init = 24'h000000 *)
+  (* src = "core_axi_lite.py:162" *)
+  reg [31:0] \addr_v$next ;
   (* src = "core_axi_lite.py:84" *)
   output [23:0] allowed_cycles;
   reg [23:0] allowed_cycles = 24'h000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:84" *)
+  reg [23:0] \allowed_cycles$next ;
   (* src = "core_axi_lite.py:164" *)
   reg arready_v = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:164" *)
+  reg \arready_v$next ;
   (* src = "core_axi_lite.py:167" *)
   reg awready_v = 1'h0;
-  (* init = 2'h0 *)
+  (* src = "core_axi_lite.py:167" *)
+  reg \awready_v$next ;
   (* src = "core_axi_lite.py:174" *)
   reg [1:0] bresp_v = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:174" *)
+  reg [1:0] \bresp_v$next ;
   (* src = "core_axi_lite.py:169" *)
   reg bvalid_v = 1'h0;
+  (* src = "core_axi_lite.py:169" *)
+  reg \bvalid_v$next ;
   (* src = "clk_domains.py:5" *)
   wire clk;
   (* src = "core_axi_lite.py:108" *)
   input [7:0] debug_en;
+  wire [7:0] debug_en;
   (* src = "core_axi_lite.py:188" *)
   wire debug_enable;
   (* src = "core_axi_lite.py:190" *)
@@ -422,201 +511,275 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
   wire [31:0] \debug_module_$signal$7 ;
   (* src = "debug_module.py:37" *)
   wire [7:0] debug_module_regs_en;
-  (* init = 4'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "core_axi_lite.py:291" *)
   reg [3:0] fsm_state = 4'h0;
+  (* src = "core_axi_lite.py:291" *)
+  reg [3:0] \fsm_state$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "core_axi_lite.py:80" *)
   output [15:0] height;
-  (* init = 32'd0 *)
+  wire [15:0] height;
   (* src = "core_axi_lite.py:111" *)
   reg [31:0] height_width = 32'd0;
+  (* src = "core_axi_lite.py:111" *)
+  reg [31:0] \height_width$next ;
   (* src = "core_axi_lite.py:187" *)
   wire hw_enable;
   (* src = "core_axi_lite.py:191" *)
   wire hw_index;
-  (* init = 32'd0 *)
   (* src = "core_axi_lite.py:171" *)
   reg [31:0] rdata_v = 32'd0;
-  (* init = 5'h00 *)
+  (* src = "core_axi_lite.py:171" *)
+  reg [31:0] \rdata_v$next ;
   (* src = "core_axi_lite.py:100" *)
   output [4:0] rp_addr;
   reg [4:0] rp_addr = 5'h00;
+  (* src = "core_axi_lite.py:100" *)
+  reg [4:0] \rp_addr$next ;
   (* src = "core_axi_lite.py:101" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "core_axi_lite.py:207" *)
   wire [63:0] rp_data64;
   (* src = "core_axi_lite.py:206" *)
-  wire [63:0] rp_data64_in;
-  (* init = 2'h0 *)
+  reg [63:0] rp_data64_in;
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
+  (* src = "core_axi_lite.py:172" *)
+  reg [1:0] \rresp_v$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:165" *)
+  reg \rvalid_v$next ;
+  (* src = "core_axi_lite.py:70" *)
+  input s_axi_aclk;
+  wire s_axi_aclk;
+  (* src = "core_axi_lite.py:71" *)
+  input s_axi_areset_n;
+  wire s_axi_areset_n;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
+  input [2:0] s_axi_ri__arprot;
+  wire [2:0] s_axi_ri__arprot;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
   output [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
+  input [2:0] s_axi_wi__awprot;
+  wire [2:0] s_axi_wi__awprot;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "core_axi_lite.py:186" *)
   wire ssss_enable;
   (* src = "core_axi_lite.py:189" *)
   wire [5:0] ssss_index;
   (* src = "core_axi_lite.py:177" *)
-  wire [31:0] wdata_v;
+  reg [31:0] wdata_v;
   (* src = "core_axi_lite.py:81" *)
   output [15:0] width;
-  (* init = 5'h00 *)
+  wire [15:0] width;
   (* src = "core_axi_lite.py:95" *)
   output [4:0] wp_addr;
   reg [4:0] wp_addr = 5'h00;
-  (* init = 33'h000000000 *)
+  (* src = "core_axi_lite.py:95" *)
+  reg [4:0] \wp_addr$next ;
   (* src = "core_axi_lite.py:96" *)
   output [32:0] wp_data;
   reg [32:0] wp_data = 33'h000000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:96" *)
+  reg [32:0] \wp_data$next ;
   (* src = "core_axi_lite.py:97" *)
   output wp_en;
   reg wp_en = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:97" *)
+  reg \wp_en$next ;
   (* src = "core_axi_lite.py:168" *)
   reg wready_v = 1'h0;
+  (* src = "core_axi_lite.py:168" *)
+  reg \wready_v$next ;
   (* src = "core_axi_lite.py:178" *)
-  wire [3:0] wstrb_v;
-  assign \$100  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$102  = \$98  & (* src = "core_axi_lite.py:372" *) \$100 ;
-  assign \$104  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$106  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
-  assign \$108  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$110  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$112  = \$108  & (* src = "core_axi_lite.py:372" *) \$110 ;
-  assign \$114  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$116  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
-  assign \$118  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$120  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$122  = \$118  & (* src = "core_axi_lite.py:372" *) \$120 ;
-  assign \$124  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$126  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
-  assign \$128  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$130  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$132  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$134  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$136  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$138  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$140  = \$136  & (* src = "core_axi_lite.py:372" *) \$138 ;
-  assign \$142  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$144  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
-  assign \$146  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$148  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$150  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$15  = + (* src = "core_axi_lite.py:101" *) rp_data;
-  assign \$17  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$19  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$21  = \$17  & (* src = "core_axi_lite.py:372" *) \$19 ;
-  assign \$23  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$25  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
-  assign \$27  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$29  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$31  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$33  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$35  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$37  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
-  assign \$39  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
-  assign \$42  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
-  assign \$45  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
-  assign \$47  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
-  assign \$49  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
-  assign \$51  = \$47  & (* src = "core_axi_lite.py:327" *) \$49 ;
-  assign \$53  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
-  assign \$55  = debug_enable == (* src = "core_axi_lite.py:334" *) 1'h1;
-  assign \$57  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
-  assign \$59  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$61  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
+  reg [3:0] wstrb_v;
+  assign \$99  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$101  = \$97  & (* src = "core_axi_lite.py:366" *) \$99 ;
+  assign \$103  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$105  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$107  = \$103  & (* src = "core_axi_lite.py:373" *) \$105 ;
+  assign \$109  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$111  = debug_enable == (* src = "core_axi_lite.py:380" *) 1'h1;
+  assign \$114  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
+  assign \$116  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$118  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$120  = \$116  & (* src = "core_axi_lite.py:366" *) \$118 ;
+  assign \$122  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$124  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$126  = \$122  & (* src = "core_axi_lite.py:373" *) \$124 ;
+  assign \$128  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$130  = debug_enable == (* src = "core_axi_lite.py:380" *) 1'h1;
+  assign \$132  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$134  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$136  = \$132  & (* src = "core_axi_lite.py:366" *) \$134 ;
+  assign \$138  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$140  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$142  = \$138  & (* src = "core_axi_lite.py:373" *) \$140 ;
+  assign \$144  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$146  = debug_enable == (* src = "core_axi_lite.py:380" *) 1'h1;
+  assign \$148  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$150  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$152  = \$148  & (* src = "core_axi_lite.py:366" *) \$150 ;
+  assign \$154  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$156  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$158  = \$154  & (* src = "core_axi_lite.py:373" *) \$156 ;
+  assign \$15  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$160  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$162  = debug_enable == (* src = "core_axi_lite.py:380" *) 1'h1;
+  assign \$164  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$166  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$168  = \$164  & (* src = "core_axi_lite.py:366" *) \$166 ;
+  assign \$170  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$172  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$174  = \$170  & (* src = "core_axi_lite.py:373" *) \$172 ;
+  assign \$176  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$178  = debug_enable == (* src = "core_axi_lite.py:380" *) 1'h1;
+  assign \$17  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$180  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$182  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$184  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$186  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$188  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$190  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$192  = \$188  & (* src = "core_axi_lite.py:366" *) \$190 ;
+  assign \$194  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$196  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$198  = \$194  & (* src = "core_axi_lite.py:373" *) \$196 ;
+  assign \$19  = \$15  & (* src = "core_axi_lite.py:366" *) \$17 ;
+  assign \$200  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$202  = debug_enable == (* src = "core_axi_lite.py:380" *) 1'h1;
+  assign \$204  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$206  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$208  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$21  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$23  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$25  = \$21  & (* src = "core_axi_lite.py:366" *) \$23 ;
+  assign \$27  = + (* src = "core_axi_lite.py:101" *) rp_data;
+  assign \$29  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$31  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$33  = \$29  & (* src = "core_axi_lite.py:366" *) \$31 ;
+  assign \$35  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$37  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$39  = \$35  & (* src = "core_axi_lite.py:373" *) \$37 ;
+  assign \$41  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$43  = debug_enable == (* src = "core_axi_lite.py:380" *) 1'h1;
+  assign \$45  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
+  assign \$47  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$49  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$51  = \$47  & (* src = "core_axi_lite.py:366" *) \$49 ;
+  assign \$53  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
+  assign \$55  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
+  assign \$58  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
+  assign \$61  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
   assign \$63  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
   assign \$65  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
   assign \$67  = \$63  & (* src = "core_axi_lite.py:327" *) \$65 ;
   assign \$69  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
   assign \$71  = debug_enable == (* src = "core_axi_lite.py:334" *) 1'h1;
-  assign \$73  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$75  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$77  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$79  = \$75  & (* src = "core_axi_lite.py:372" *) \$77 ;
-  assign \$81  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$83  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
-  assign \$86  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
-  assign \$88  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$90  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$92  = \$88  & (* src = "core_axi_lite.py:372" *) \$90 ;
-  assign \$94  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$96  = debug_enable == (* src = "core_axi_lite.py:379" *) 1'h1;
-  assign \$98  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
+  assign \$73  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
+  assign \$75  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$77  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
+  assign \$79  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
+  assign \$81  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
+  assign \$83  = \$79  & (* src = "core_axi_lite.py:327" *) \$81 ;
+  assign \$85  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
+  assign \$87  = debug_enable == (* src = "core_axi_lite.py:334" *) 1'h1;
+  assign \$89  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$91  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$93  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$95  = \$91  & (* src = "core_axi_lite.py:366" *) \$93 ;
+  assign \$97  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
   always @(posedge full_clk)
-      allowed_cycles <= \$next\allowed_cycles ;
+    allowed_cycles <= \allowed_cycles$next ;
   always @(posedge full_clk)
-      rdata_v <= \$next\rdata_v ;
+    rdata_v <= \rdata_v$next ;
   always @(posedge full_clk)
-      arready_v <= \$next\arready_v ;
+    arready_v <= \arready_v$next ;
   always @(posedge full_clk)
-      rp_addr <= \$next\rp_addr ;
+    rp_addr <= \rp_addr$next ;
   always @(posedge full_clk)
-      addr_v <= \$next\addr_v ;
+    addr_v <= \addr_v$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge full_clk)
-      bvalid_v <= \$next\bvalid_v ;
+    bvalid_v <= \bvalid_v$next ;
   always @(posedge full_clk)
-      rvalid_v <= \$next\rvalid_v ;
+    rvalid_v <= \rvalid_v$next ;
   always @(posedge full_clk)
-      height_width <= \$next\height_width ;
+    height_width <= \height_width$next ;
   always @(posedge full_clk)
-      bresp_v <= \$next\bresp_v ;
+    bresp_v <= \bresp_v$next ;
   always @(posedge full_clk)
-      wp_en <= \$next\wp_en ;
+    wp_en <= \wp_en$next ;
   always @(posedge full_clk)
-      wp_data <= \$next\wp_data ;
+    wp_data <= \wp_data$next ;
   always @(posedge full_clk)
-      wp_addr <= \$next\wp_addr ;
+    wp_addr <= \wp_addr$next ;
   always @(posedge full_clk)
-      wready_v <= \$next\wready_v ;
+    wready_v <= \wready_v$next ;
   always @(posedge full_clk)
-      awready_v <= \$next\awready_v ;
+    awready_v <= \awready_v$next ;
   always @(posedge full_clk)
-      rresp_v <= \$next\rresp_v ;
+    rresp_v <= \rresp_v$next ;
   debug_module debug_module (
     .\$signal (\debug_module_$signal ),
     .\$signal$1 (\debug_module_$signal$1 ),
@@ -631,125 +794,229 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
     .regs_en(debug_module_regs_en)
   );
   always @* begin
-    \$next\debug_module_regs_en  = 8'h00;
-    \$next\debug_module_regs_en  = debug_en;
-  end
-  always @* begin
-    \$next$signal  = 32'd0;
-    \$next$signal  = \debug_module_$signal ;
-  end
-  always @* begin
-    \$next\wdata_v  = 32'd0;
-    \$next\wdata_v  = 32'd0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    wdata_v = 32'd0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$19 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wdata_v  = s_axi_wi__wdata;
+                wdata_v = s_axi_wi__wdata;
           endcase
     endcase
   end
   always @* begin
-    \$next\wstrb_v  = 4'h0;
-    \$next\wstrb_v  = 4'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    wstrb_v = 4'h0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$25 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wstrb_v  = s_axi_wi__wstrb;
+                wstrb_v = s_axi_wi__wstrb;
           endcase
     endcase
   end
   always @* begin
-    \$next\ssss_enable  = 1'h0;
-    \$next\ssss_enable  = addr_v[10];
-  end
-  always @* begin
-    \$next\hw_enable  = 1'h0;
-    \$next\hw_enable  = addr_v[11];
-  end
-  always @* begin
-    \$next\debug_enable  = 1'h0;
-    \$next\debug_enable  = addr_v[12];
-  end
-  always @* begin
-    \$next\ssss_index  = 6'h00;
-    \$next\ssss_index  = addr_v[5:0];
-  end
-  always @* begin
-    \$next\debug_index  = 3'h0;
-    \$next\debug_index  = addr_v[2:0];
-  end
-  always @* begin
-    \$next\hw_index  = 1'h0;
-    \$next\hw_index  = addr_v[0];
-  end
-  always @* begin
-    \$next\rp_data64  = 64'h0000000000000000;
-    \$next\rp_data64  = \$15 ;
-  end
-  always @* begin
-    \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    rp_data64_in = rp_data64;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$33 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$25 , \$23 , \$21  })
-                  3'bzz1:
-                      casez (\$27 )
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$43 , \$41 , \$39  })
+                  /* src = "core_axi_lite.py:373" */
+                  3'b??1:
+                      (* src = "core_axi_lite.py:251" *)
+                      casez (\$45 )
+                        /* src = "core_axi_lite.py:251" */
                         1'h1:
                           begin
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [7:0] = wdata_v[7:0];
-                              1'hz:
-                                  \$next\rp_data64_in [7:0] = rp_data64[7:0];
+                                  rp_data64_in[7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[7:0] = rp_data64[7:0];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [15:8] = wdata_v[15:8];
-                              1'hz:
-                                  \$next\rp_data64_in [15:8] = rp_data64[15:8];
+                                  rp_data64_in[15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[15:8] = rp_data64[15:8];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [23:16] = wdata_v[23:16];
-                              1'hz:
-                                  \$next\rp_data64_in [23:16] = rp_data64[23:16];
+                                  rp_data64_in[23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[23:16] = rp_data64[23:16];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [31:24] = wdata_v[31:24];
-                              1'hz:
-                                  \$next\rp_data64_in [31:24] = rp_data64[31:24];
+                                  rp_data64_in[31:24] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[31:24] = rp_data64[31:24];
                             endcase
                           end
-                        1'hz:
+                        /* src = "core_axi_lite.py:260" */
+                        default:
                           begin
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$29 ;
-                              1'hz:
-                                  \$next\rp_data64_in [39:32] = rp_data64[39:32];
+                                  rp_data64_in[39:32] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[39:32] = rp_data64[39:32];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$31 ;
-                              1'hz:
-                                  \$next\rp_data64_in [47:40] = rp_data64[47:40];
+                                  rp_data64_in[47:40] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[47:40] = rp_data64[47:40];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$33 ;
-                              1'hz:
-                                  \$next\rp_data64_in [55:48] = rp_data64[55:48];
+                                  rp_data64_in[55:48] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[55:48] = rp_data64[55:48];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$35 ;
-                              1'hz:
-                                  \$next\rp_data64_in [63:56] = rp_data64[63:56];
+                                  rp_data64_in[63:56] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[63:56] = rp_data64[63:56];
                             endcase
                           end
                       endcase
@@ -758,490 +1025,985 @@ module top(full_clk, rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
     endcase
   end
   always @* begin
-    \$next$signal$8  = 32'd0;
-    \$next$signal$8  = \debug_module_$signal$1 ;
-  end
-  always @* begin
-    \$next\rvalid_v  = rvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \rvalid_v$next  = rvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\rvalid_v  = 1'h1;
+                \rvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bvalid_v  = bvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \bvalid_v$next  = bvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
+      4'h8:
+          /* empty */;
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\bvalid_v  = 1'h1;
+                \bvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
+          (* src = "core_axi_lite.py:300" *)
           casez ({ s_axi_wi__awvalid, s_axi_ri__arvalid })
-            2'bz1:
-                \$next\fsm_state  = 4'h1;
-            2'b1z:
-                \$next\fsm_state  = 4'h2;
+            /* src = "core_axi_lite.py:300" */
+            2'b?1:
+                \fsm_state$next  = 4'h1;
+            /* src = "core_axi_lite.py:302" */
+            2'b1?:
+                \fsm_state$next  = 4'h2;
           endcase
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\fsm_state  = 4'h3;
+          \fsm_state$next  = 4'h3;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\fsm_state  = 4'h4;
+          \fsm_state$next  = 4'h4;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
       4'h4:
-          \$next\fsm_state  = 4'h5;
+          \fsm_state$next  = 4'h5;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\fsm_state  = 4'h6;
+          \fsm_state$next  = 4'h6;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\fsm_state  = 4'h7;
+          \fsm_state$next  = 4'h7;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
       4'h7:
-          \$next\fsm_state  = 4'h8;
+          \fsm_state$next  = 4'h8;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$51 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\fsm_state  = 4'h9;
+                \fsm_state$next  = 4'h9;
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 4'h0;
+          \fsm_state$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\addr_v  = addr_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \addr_v$next  = addr_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\addr_v  = \$37 ;
+          \addr_v$next  = \$53 ;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\addr_v  = \$39 ;
+          \addr_v$next  = \$55 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\addr_v  = 32'd0;
+          \addr_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = rp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \rp_addr$next  = rp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\rp_addr  = \$41 [4:0];
+          \rp_addr$next  = \$58 [4:0];
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\rp_addr  = \$44 [4:0];
+          \rp_addr$next  = \$61 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rp_addr  = 5'h00;
+          \rp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\arready_v  = arready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \arready_v$next  = arready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\arready_v  = 1'h1;
+          \arready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdata_v  = rdata_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \rdata_v$next  = rdata_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$55 , \$53 , \$51  })
-            3'bzz1:
-                casez (\$57 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$71 , \$69 , \$67  })
+            /* src = "core_axi_lite.py:327" */
+            3'b??1:
+                (* src = "core_axi_lite.py:242" *)
+                casez (\$73 )
+                  /* src = "core_axi_lite.py:242" */
                   1'h1:
-                      \$next\rdata_v  = rp_data64[31:0];
-                  1'hz:
-                      \$next\rdata_v  = rp_data64[63:32];
+                      \rdata_v$next  = rp_data64[31:0];
+                  /* src = "core_axi_lite.py:245" */
+                  default:
+                      \rdata_v$next  = rp_data64[63:32];
                 endcase
-            3'bz1z:
-                casez (\$59 )
+            /* src = "core_axi_lite.py:330" */
+            3'b?1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$75 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rdata_v  = height_width;
-                  1'hz:
-                      \$next\rdata_v  = \$61 ;
+                      \rdata_v$next  = height_width;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rdata_v$next  = \$77 ;
                 endcase
-            3'b1zz:
+            /* src = "core_axi_lite.py:334" */
+            3'b1??:
+                (* src = "core_axi_lite.py:281" *)
                 casez (debug_index)
                   3'h0:
-                      \$next\rdata_v  = \$signal ;
+                      \rdata_v$next  = \$signal ;
                   3'h1:
-                      \$next\rdata_v  = \$signal$8 ;
+                      \rdata_v$next  = \$signal$8 ;
                   3'h2:
-                      \$next\rdata_v  = \$signal$9 ;
+                      \rdata_v$next  = \$signal$9 ;
                   3'h3:
-                      \$next\rdata_v  = \$signal$10 ;
+                      \rdata_v$next  = \$signal$10 ;
                   3'h4:
-                      \$next\rdata_v  = \$signal$11 ;
+                      \rdata_v$next  = \$signal$11 ;
                   3'h5:
-                      \$next\rdata_v  = \$signal$12 ;
+                      \rdata_v$next  = \$signal$12 ;
                   3'h6:
-                      \$next\rdata_v  = \$signal$13 ;
-                  3'hz:
-                      \$next\rdata_v  = \$signal$14 ;
+                      \rdata_v$next  = \$signal$13 ;
+                  3'h?:
+                      \rdata_v$next  = \$signal$14 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rdata_v  = 32'd0;
+          \rdata_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rresp_v  = rresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \rresp_v$next  = rresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$71 , \$69 , \$67  })
-            3'bzz1:
-                \$next\rresp_v  = 2'h0;
-            3'bz1z:
-                casez (\$73 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$87 , \$85 , \$83  })
+            /* src = "core_axi_lite.py:327" */
+            3'b??1:
+                \rresp_v$next  = 2'h0;
+            /* src = "core_axi_lite.py:330" */
+            3'b?1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$89 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rresp_v  = 2'h0;
-                  1'hz:
-                      \$next\rresp_v  = 2'h0;
+                      \rresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rresp_v$next  = 2'h0;
                 endcase
-            3'b1zz:
-                \$next\rresp_v  = 2'h0;
-            3'hz:
-                \$next\rresp_v  = 2'h3;
+            /* src = "core_axi_lite.py:334" */
+            3'b1??:
+                \rresp_v$next  = 2'h0;
+            /* src = "core_axi_lite.py:337" */
+            default:
+                \rresp_v$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rresp_v  = 2'h0;
+          \rresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\awready_v  = awready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \awready_v$next  = awready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\awready_v  = 1'h1;
+          \awready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wready_v  = wready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \wready_v$next  = wready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          \$next\wready_v  = 1'h1;
+        begin
+          \wready_v$next  = 1'h1;
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$95 )
+            /* src = "core_axi_lite.py:366" */
+            1'h1:
+                \wready_v$next  = 1'h0;
+          endcase
+        end
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next$signal$9  = 32'd0;
-    \$next$signal$9  = \debug_module_$signal$2 ;
-  end
-  always @* begin
-    \$next\wp_addr  = wp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \wp_addr$next  = wp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$101 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$83 , \$81 , \$79  })
-                  3'bzz1:
-                      \$next\wp_addr  = \$85 [4:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$111 , \$109 , \$107  })
+                  /* src = "core_axi_lite.py:373" */
+                  3'b??1:
+                      \wp_addr$next  = \$114 [4:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_addr  = 5'h00;
+          \wp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\wp_data  = wp_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \wp_data$next  = wp_data;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$120 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$96 , \$94 , \$92  })
-                  3'bzz1:
-                      \$next\wp_data  = rp_data64_in[32:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$130 , \$128 , \$126  })
+                  /* src = "core_axi_lite.py:373" */
+                  3'b??1:
+                      \wp_data$next  = rp_data64_in[32:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_data  = 33'h000000000;
+          \wp_data$next  = 33'h000000000;
     endcase
   end
   always @* begin
-    \$next\wp_en  = wp_en;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \wp_en$next  = wp_en;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$136 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$106 , \$104 , \$102  })
-                  3'bzz1:
-                      \$next\wp_en  = 1'h1;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$146 , \$144 , \$142  })
+                  /* src = "core_axi_lite.py:373" */
+                  3'b??1:
+                      \wp_en$next  = 1'h1;
                 endcase
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bresp_v  = bresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \bresp_v$next  = bresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$152 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$116 , \$114 , \$112  })
-                  3'bzz1:
-                      \$next\bresp_v  = 2'h0;
-                  3'bz1z:
-                      \$next\bresp_v  = 2'h0;
-                  3'b1zz:
-                      \$next\bresp_v  = 2'h2;
-                  3'hz:
-                      \$next\bresp_v  = 2'h3;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$162 , \$160 , \$158  })
+                  /* src = "core_axi_lite.py:373" */
+                  3'b??1:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:376" */
+                  3'b?1?:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:380" */
+                  3'b1??:
+                      \bresp_v$next  = 2'h2;
+                  /* src = "core_axi_lite.py:383" */
+                  default:
+                      \bresp_v$next  = 2'h3;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bresp_v  = 2'h0;
+          \bresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\height_width  = height_width;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \height_width$next  = height_width;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$168 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$126 , \$124 , \$122  })
-                  3'bzz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$178 , \$176 , \$174  })
+                  /* src = "core_axi_lite.py:373" */
+                  3'b??1:
                       /* empty */;
-                  3'bz1z:
+                  /* src = "core_axi_lite.py:376" */
+                  3'b?1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$128 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$180 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [7:0] = wdata_v[7:0];
+                                  \height_width$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$130 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$182 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [15:8] = wdata_v[15:8];
+                                  \height_width$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$132 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$184 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [23:16] = wdata_v[23:16];
+                                  \height_width$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[3])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$134 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$186 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [31:24] = wdata_v[31:24];
+                                  \height_width$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_width  = 32'd0;
+          \height_width$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles  = allowed_cycles;
+    if (\$auto$verilog_backend.cc:2184:dump_module$26 ) begin end
+    \allowed_cycles$next  = allowed_cycles;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$192 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$144 , \$142 , \$140  })
-                  3'bzz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$202 , \$200 , \$198  })
+                  /* src = "core_axi_lite.py:373" */
+                  3'b??1:
                       /* empty */;
-                  3'bz1z:
+                  /* src = "core_axi_lite.py:376" */
+                  3'b?1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$146 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$204 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$148 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$206 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$150 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$208 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles  = 24'h000000;
+          \allowed_cycles$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\s_axi_ro__arready  = 1'h0;
-    \$next\s_axi_ro__arready  = arready_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rvalid  = 1'h0;
-    \$next\s_axi_ro__rvalid  = rvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__awready  = 1'h0;
-    \$next\s_axi_wo__awready  = awready_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__wready  = 1'h0;
-    \$next\s_axi_wo__wready  = wready_v;
-  end
-  always @* begin
-    \$next$signal$10  = 32'd0;
-    \$next$signal$10  = \debug_module_$signal$3 ;
-  end
-  always @* begin
-    \$next\s_axi_wo__bvalid  = 1'h0;
-    \$next\s_axi_wo__bvalid  = bvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rdata  = 32'd0;
-    \$next\s_axi_ro__rdata  = rdata_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rresp  = 2'h0;
-    \$next\s_axi_ro__rresp  = rresp_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__bresp  = 2'h0;
-    \$next\s_axi_wo__bresp  = bresp_v;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_width[15:0];
-  end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = height_width[31:16];
-  end
-  always @* begin
-    \$next$signal$11  = 32'd0;
-    \$next$signal$11  = \debug_module_$signal$4 ;
-  end
-  always @* begin
-    \$next$signal$12  = 32'd0;
-    \$next$signal$12  = \debug_module_$signal$5 ;
-  end
-  always @* begin
-    \$next$signal$13  = 32'd0;
-    \$next$signal$13  = \debug_module_$signal$6 ;
-  end
-  always @* begin
-    \$next$signal$14  = 32'd0;
-    \$next$signal$14  = \debug_module_$signal$7 ;
-  end
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
-  assign \$41  = \$42 ;
-  assign \$44  = \$45 ;
-  assign \$85  = \$86 ;
-  assign width = \$next\width ;
-  assign height = \$next\height ;
-  assign s_axi_wo__bresp = \$next\s_axi_wo__bresp ;
-  assign s_axi_ro__rresp = \$next\s_axi_ro__rresp ;
-  assign s_axi_ro__rdata = \$next\s_axi_ro__rdata ;
-  assign s_axi_wo__bvalid = \$next\s_axi_wo__bvalid ;
-  assign s_axi_wo__wready = \$next\s_axi_wo__wready ;
-  assign s_axi_wo__awready = \$next\s_axi_wo__awready ;
-  assign s_axi_ro__rvalid = \$next\s_axi_ro__rvalid ;
-  assign s_axi_ro__arready = \$next\s_axi_ro__arready ;
-  assign rp_data64_in = \$next\rp_data64_in ;
-  assign rp_data64 = \$next\rp_data64 ;
-  assign hw_index = \$next\hw_index ;
-  assign debug_index = \$next\debug_index ;
-  assign ssss_index = \$next\ssss_index ;
-  assign debug_enable = \$next\debug_enable ;
-  assign hw_enable = \$next\hw_enable ;
-  assign ssss_enable = \$next\ssss_enable ;
-  assign wstrb_v = \$next\wstrb_v ;
-  assign wdata_v = \$next\wdata_v ;
-  assign clk = \$next\clk ;
-  assign \$signal$14  = \$next$signal$14 ;
-  assign \$signal$13  = \$next$signal$13 ;
-  assign \$signal$12  = \$next$signal$12 ;
-  assign \$signal$11  = \$next$signal$11 ;
-  assign \$signal$10  = \$next$signal$10 ;
-  assign \$signal$9  = \$next$signal$9 ;
-  assign \$signal$8  = \$next$signal$8 ;
-  assign \$signal  = \$next$signal ;
-  assign debug_module_regs_en = \$next\debug_module_regs_en ;
+  assign \$57  = \$58 ;
+  assign \$60  = \$61 ;
+  assign \$113  = \$114 ;
+  assign width = height_width[31:16];
+  assign height = height_width[15:0];
+  assign s_axi_wo__bresp = bresp_v;
+  assign s_axi_ro__rresp = rresp_v;
+  assign s_axi_ro__rdata = rdata_v;
+  assign s_axi_wo__bvalid = bvalid_v;
+  assign s_axi_wo__wready = wready_v;
+  assign s_axi_wo__awready = awready_v;
+  assign s_axi_ro__rvalid = rvalid_v;
+  assign s_axi_ro__arready = arready_v;
+  assign rp_data64 = \$27 ;
+  assign hw_index = addr_v[0];
+  assign debug_index = addr_v[2:0];
+  assign ssss_index = addr_v[5:0];
+  assign debug_enable = addr_v[12];
+  assign hw_enable = addr_v[11];
+  assign ssss_enable = addr_v[10];
+  assign clk = full_clk;
+  assign \$signal$14  = \debug_module_$signal$7 ;
+  assign \$signal$13  = \debug_module_$signal$6 ;
+  assign \$signal$12  = \debug_module_$signal$5 ;
+  assign \$signal$11  = \debug_module_$signal$4 ;
+  assign \$signal$10  = \debug_module_$signal$3 ;
+  assign \$signal$9  = \debug_module_$signal$2 ;
+  assign \$signal$8  = \debug_module_$signal$1 ;
+  assign \$signal  = \debug_module_$signal ;
+  assign debug_module_regs_en = debug_en;
 endmodule
 
diff --git a/verilog_src/debug_module.v b/verilog_src/debug_module.v
index e8287d2..7497400 100644
--- a/verilog_src/debug_module.v
+++ b/verilog_src/debug_module.v
@@ -1,83 +1,93 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(regs_en, full_rst, \$signal , \$signal$1 , \$signal$2 , \$signal$3 , \$signal$4 , \$signal$5 , \$signal$6 , \$signal$7 , full_clk);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(\$signal$1 , \$signal$2 , \$signal$3 , \$signal$4 , \$signal$5 , \$signal$6 , \$signal$7 , regs_en, full_clk, full_rst, \$signal );
+  reg \$auto$verilog_backend.cc:2184:dump_module$9  = 0;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$11 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$12 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$14 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$15 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$17 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$18 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$20 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$21 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$23 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$24 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$26 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$27 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$29 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$30 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$8 ;
+  (* src = "debug_module.py:52" *)
   wire [32:0] \$9 ;
   (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$1 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$2 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$3 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$4 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$5 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$6 ;
-  (* src = "debug_module.py:36" *)
-  reg [31:0] \$next$signal$7 ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\clk ;
-  (* init = 32'd0 *)
-  (* src = "debug_module.py:36" *)
   output [31:0] \$signal ;
   reg [31:0] \$signal  = 32'd0;
-  (* init = 32'd0 *)
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$1 ;
   reg [31:0] \$signal$1  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$1$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$2 ;
   reg [31:0] \$signal$2  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$2$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$3 ;
   reg [31:0] \$signal$3  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$3$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$4 ;
   reg [31:0] \$signal$4  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$4$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$5 ;
   reg [31:0] \$signal$5  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$5$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$6 ;
   reg [31:0] \$signal$6  = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$6$next ;
   (* src = "debug_module.py:36" *)
   output [31:0] \$signal$7 ;
   reg [31:0] \$signal$7  = 32'd0;
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$7$next ;
+  (* src = "debug_module.py:36" *)
+  reg [31:0] \$signal$next ;
   (* src = "clk_domains.py:5" *)
   wire clk;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "debug_module.py:37" *)
   input [7:0] regs_en;
+  wire [7:0] regs_en;
   assign \$9  = \$signal  + (* src = "debug_module.py:52" *) 1'h1;
   assign \$12  = \$signal$1  + (* src = "debug_module.py:52" *) 1'h1;
   assign \$15  = \$signal$2  + (* src = "debug_module.py:52" *) 1'h1;
@@ -87,111 +97,139 @@ module top(regs_en, full_rst, \$signal , \$signal$1 , \$signal$2 , \$signal$3 ,
   assign \$27  = \$signal$6  + (* src = "debug_module.py:52" *) 1'h1;
   assign \$30  = \$signal$7  + (* src = "debug_module.py:52" *) 1'h1;
   always @(posedge full_clk)
-      \$signal$7  <= \$next$signal$7 ;
+    \$signal$7  <= \$signal$7$next ;
   always @(posedge full_clk)
-      \$signal$6  <= \$next$signal$6 ;
+    \$signal$6  <= \$signal$6$next ;
   always @(posedge full_clk)
-      \$signal$5  <= \$next$signal$5 ;
+    \$signal$5  <= \$signal$5$next ;
   always @(posedge full_clk)
-      \$signal$4  <= \$next$signal$4 ;
+    \$signal$4  <= \$signal$4$next ;
   always @(posedge full_clk)
-      \$signal$3  <= \$next$signal$3 ;
+    \$signal$3  <= \$signal$3$next ;
   always @(posedge full_clk)
-      \$signal$2  <= \$next$signal$2 ;
+    \$signal$2  <= \$signal$2$next ;
   always @(posedge full_clk)
-      \$signal$1  <= \$next$signal$1 ;
+    \$signal$1  <= \$signal$1$next ;
   always @(posedge full_clk)
-      \$signal  <= \$next$signal ;
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
+    \$signal  <= \$signal$next ;
   always @* begin
-    \$next$signal  = \$signal ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$next  = \$signal ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[0])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal  = \$8 [31:0];
+          \$signal$next  = \$9 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal  = 32'd0;
+          \$signal$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$1  = \$signal$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$1$next  = \$signal$1 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[1])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$1  = \$11 [31:0];
+          \$signal$1$next  = \$12 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$1  = 32'd0;
+          \$signal$1$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$2  = \$signal$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$2$next  = \$signal$2 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[2])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$2  = \$14 [31:0];
+          \$signal$2$next  = \$15 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$2  = 32'd0;
+          \$signal$2$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$3  = \$signal$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$3$next  = \$signal$3 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[3])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$3  = \$17 [31:0];
+          \$signal$3$next  = \$18 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$3  = 32'd0;
+          \$signal$3$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$4  = \$signal$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$4$next  = \$signal$4 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[4])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$4  = \$20 [31:0];
+          \$signal$4$next  = \$21 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$4  = 32'd0;
+          \$signal$4$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$5  = \$signal$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$5$next  = \$signal$5 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[5])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$5  = \$23 [31:0];
+          \$signal$5$next  = \$24 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$5  = 32'd0;
+          \$signal$5$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$6  = \$signal$6 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$6$next  = \$signal$6 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[6])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$6  = \$26 [31:0];
+          \$signal$6$next  = \$27 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$6  = 32'd0;
+          \$signal$6$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next$signal$7  = \$signal$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \$signal$7$next  = \$signal$7 ;
+    (* src = "debug_module.py:51" *)
     casez (regs_en[7])
+      /* src = "debug_module.py:51" */
       1'h1:
-          \$next$signal$7  = \$29 [31:0];
+          \$signal$7$next  = \$30 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next$signal$7  = 32'd0;
+          \$signal$7$next  = 32'd0;
     endcase
   end
   assign \$8  = \$9 ;
@@ -202,6 +240,6 @@ module top(regs_en, full_rst, \$signal , \$signal$1 , \$signal$2 , \$signal$3 ,
   assign \$23  = \$24 ;
   assign \$26  = \$27 ;
   assign \$29  = \$30 ;
-  assign clk = \$next\clk ;
+  assign clk = full_clk;
 endmodule
 
diff --git a/verilog_src/delayer.v b/verilog_src/delayer.v
index 757f35c..26041bf 100644
--- a/verilog_src/delayer.v
+++ b/verilog_src/delayer.v
@@ -1,82 +1,91 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(rst, clk, out_sig, in_sig);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(out_sig, clk, rst, in_sig);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
+  (* src = "delayer.py:27" *)
   wire [3:0] \$1 ;
+  (* src = "delayer.py:27" *)
   wire [3:0] \$2 ;
+  (* src = "delayer.py:29" *)
   wire \$4 ;
+  (* src = "delayer.py:29" *)
   wire \$6 ;
-  (* src = "delayer.py:11" *)
-  reg \$next\out_sig ;
-  (* src = "delayer.py:19" *)
-  reg \$next\out_val ;
-  (* src = "delayer.py:12" *)
-  reg [2:0] \$next\timer ;
-  (* src = "delayer.py:18" *)
-  reg \$next\timer_start ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "delayer.py:10" *)
   input in_sig;
+  wire in_sig;
   (* src = "delayer.py:11" *)
   output out_sig;
-  (* init = 1'h0 *)
+  wire out_sig;
   (* src = "delayer.py:19" *)
   reg out_val = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "delayer.py:19" *)
+  reg \out_val$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 3'h6 *)
+  wire rst;
   (* src = "delayer.py:12" *)
   reg [2:0] timer = 3'h6;
-  (* init = 1'h0 *)
+  (* src = "delayer.py:12" *)
+  reg [2:0] \timer$next ;
   (* src = "delayer.py:18" *)
   reg timer_start = 1'h0;
+  (* src = "delayer.py:18" *)
+  reg \timer_start$next ;
   assign \$2  = timer - (* src = "delayer.py:27" *) 1'h1;
   assign \$4  = timer == (* src = "delayer.py:29" *) 1'h0;
   assign \$6  = \$4  | (* src = "delayer.py:29" *) out_val;
   always @(posedge clk)
-      out_val <= \$next\out_val ;
+    out_val <= \out_val$next ;
   always @(posedge clk)
-      timer <= \$next\timer ;
+    timer <= \timer$next ;
   always @(posedge clk)
-      timer_start <= \$next\timer_start ;
+    timer_start <= \timer_start$next ;
   always @* begin
-    \$next\timer_start  = timer_start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \timer_start$next  = timer_start;
+    (* src = "delayer.py:23" *)
     casez (in_sig)
+      /* src = "delayer.py:23" */
       1'h1:
-          \$next\timer_start  = 1'h1;
+          \timer_start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\timer_start  = 1'h0;
+          \timer_start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\timer  = timer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \timer$next  = timer;
+    (* src = "delayer.py:26" *)
     casez (timer_start)
+      /* src = "delayer.py:26" */
       1'h1:
-          \$next\timer  = \$1 [2:0];
+          \timer$next  = \$2 [2:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\timer  = 3'h6;
+          \timer$next  = 3'h6;
     endcase
   end
   always @* begin
-    \$next\out_val  = out_val;
-    \$next\out_val  = \$6 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \out_val$next  = \$6 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_val  = 1'h0;
+          \out_val$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\out_sig  = 1'h0;
-    \$next\out_sig  = out_val;
-  end
   assign \$1  = \$2 ;
-  assign out_sig = \$next\out_sig ;
+  assign out_sig = out_val;
 endmodule
 
diff --git a/verilog_src/difference.v b/verilog_src/difference.v
index 121309f..d624968 100644
--- a/verilog_src/difference.v
+++ b/verilog_src/difference.v
@@ -1,148 +1,195 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, valid_in);
-  wire [17:0] \$10 ;
-  wire [16:0] \$11 ;
-  wire [17:0] \$13 ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(\val_out$1 , predic_in, \predic_in$2 , pixel_in, \pixel_in$3 , \val_out$4 , \val_out$5 , valid_in, valid_out, end_in, end_out, clk, rst, val_out);
+  reg \$auto$verilog_backend.cc:2184:dump_module$7  = 0;
+  (* src = "difference.py:91" *)
+  wire [16:0] \$12 ;
+  (* src = "difference.py:98" *)
+  wire [17:0] \$14 ;
+  (* src = "difference.py:98" *)
   wire [17:0] \$15 ;
-  wire [16:0] \$16 ;
-  wire [17:0] \$18 ;
+  (* src = "difference.py:91" *)
   wire [16:0] \$6 ;
-  wire [16:0] \$8 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:64" *)
-  reg [16:0] \$next\val_out ;
-  (* src = "difference.py:64" *)
-  reg [16:0] \$next\val_out$3 ;
-  (* src = "difference.py:61" *)
-  reg [16:0] \$next\val_out$4 ;
-  (* src = "difference.py:61" *)
-  reg [16:0] \$next\val_out$5 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "difference.py:98" *)
+  wire [17:0] \$8 ;
+  (* src = "difference.py:98" *)
+  wire [17:0] \$9 ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [16:0] diff;
+  (* src = "difference.py:90" *)
+  reg [16:0] \diff$11 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [15:0] pixel_in;
+  wire [15:0] pixel_in;
   (* src = "difference.py:55" *)
-  input [15:0] \pixel_in$1 ;
+  input [15:0] \pixel_in$3 ;
+  wire [15:0] \pixel_in$3 ;
   (* src = "difference.py:58" *)
   input [15:0] predic_in;
+  wire [15:0] predic_in;
   (* src = "difference.py:58" *)
   input [15:0] \predic_in$2 ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire [15:0] \predic_in$2 ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 17'h00000 *)
+  wire rst;
   (* src = "difference.py:64" *)
   output [16:0] val_out;
   reg [16:0] val_out = 17'h00000;
-  (* init = 17'h00000 *)
   (* src = "difference.py:64" *)
-  output [16:0] \val_out$3 ;
-  reg [16:0] \val_out$3  = 17'h00000;
-  (* init = 17'h00000 *)
+  output [16:0] \val_out$1 ;
+  reg [16:0] \val_out$1  = 17'h00000;
+  (* src = "difference.py:64" *)
+  reg [16:0] \val_out$1$next ;
   (* src = "difference.py:61" *)
   output [16:0] \val_out$4 ;
   reg [16:0] \val_out$4  = 17'h00000;
-  (* init = 17'h00000 *)
+  (* src = "difference.py:61" *)
+  reg [16:0] \val_out$4$next ;
   (* src = "difference.py:61" *)
   output [16:0] \val_out$5 ;
   reg [16:0] \val_out$5  = 17'h00000;
+  (* src = "difference.py:61" *)
+  reg [16:0] \val_out$5$next ;
+  (* src = "difference.py:64" *)
+  reg [16:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
-  assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$9  = { diff[15], diff[15:0] } - (* src = "difference.py:98" *) 1'h1;
+  assign \$12  = \pixel_in$3  - (* src = "difference.py:91" *) \predic_in$2 ;
+  assign \$15  = { \diff$11 [15], \diff$11 [15:0] } - (* src = "difference.py:98" *) 1'h1;
+  assign \$6  = pixel_in - (* src = "difference.py:91" *) predic_in;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$3  <= \$next\val_out$3 ;
+    \val_out$1  <= \val_out$1$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    \val_out$5  <= \val_out$5$next ;
   always @(posedge clk)
-      \val_out$5  <= \$next\val_out$5 ;
+    val_out <= \val_out$next ;
   always @(posedge clk)
-      \val_out$4  <= \$next\val_out$4 ;
+    \val_out$4  <= \val_out$4$next ;
   always @* begin
-    \$next\val_out$4  = \val_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    diff = 17'h00000;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$4  = \$6 ;
+          diff = \$6 ;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \val_out$4$next  = \val_out$4 ;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \val_out$4$next  = { diff[15], diff[15:0] };
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$4  = 17'h00000;
+          \val_out$4$next  = 17'h00000;
     endcase
   end
   always @* begin
-    \$next\val_out$5  = \val_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$5  = \$8 ;
+          \val_out$next  = \$9 [16:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$5  = 17'h00000;
+          \val_out$next  = 17'h00000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \diff$11  = 17'h00000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$11  = \$12 ;
     endcase
   end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \val_out$5$next  = \val_out$5 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$10 [16:0];
+          \val_out$5$next  = { \diff$11 [15], \diff$11 [15:0] };
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 17'h00000;
+          \val_out$5$next  = 17'h00000;
     endcase
   end
   always @* begin
-    \$next\val_out$3  = \val_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \val_out$1$next  = \val_out$1 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$3  = \$15 [16:0];
+          \val_out$1$next  = \$15 [16:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$3  = 17'h00000;
+          \val_out$1$next  = 17'h00000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$10  = \$13 ;
-  assign \$15  = \$18 ;
+  assign \$8  = \$9 ;
+  assign \$14  = \$15 ;
 endmodule
 
diff --git a/verilog_src/dma_axi_lite.v b/verilog_src/dma_axi_lite.v
index 3e4d572..759cbf4 100644
--- a/verilog_src/dma_axi_lite.v
+++ b/verilog_src/dma_axi_lite.v
@@ -1,693 +1,1223 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_axi_wi___awvalid, s_axi_ri___araddr, in1, in2, in3, in4, in5, in6, in7, in8, in9, s_axi_ri___rready, s_axi_wi___awaddr, s_axi_wi___wvalid, s_axi_wi___wdata, s_axi_wi___wstrb, s_axi_wi___bready, rst, clk, read_addr, write_addr, start, s_axi_ro___arready, s_axi_ro___rdata, s_axi_ro___rresp, s_axi_ro___rvalid, s_axi_wo___awready, s_axi_wo___wready, s_axi_wo___bresp, s_axi_wo___bvalid, s_axi_ri___arvalid);
-  wire [31:0] \$1 ;
-  wire [31:0] \$3 ;
-  (* src = "dma_axi_lite.py:110" *)
-  reg [31:0] \$next\addr_v ;
-  (* src = "dma_axi_lite.py:112" *)
-  reg \$next\arready_v ;
-  (* src = "dma_axi_lite.py:115" *)
-  reg \$next\awready_v ;
-  (* src = "dma_axi_lite.py:134" *)
-  reg \$next\basic_enable ;
-  (* src = "dma_axi_lite.py:135" *)
-  reg [3:0] \$next\basic_index ;
-  (* src = "dma_axi_lite.py:122" *)
-  reg [1:0] \$next\bresp_v ;
-  (* src = "dma_axi_lite.py:117" *)
-  reg \$next\bvalid_v ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "dma_axi_lite.py:119" *)
-  reg [31:0] \$next\rdata_v ;
-  (* src = "dma_axi_lite.py:59" *)
-  reg [31:0] \$next\read_addr ;
-  (* src = "dma_axi_lite.py:120" *)
-  reg [1:0] \$next\rresp_v ;
-  (* src = "dma_axi_lite.py:113" *)
-  reg \$next\rvalid_v ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro___arready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\s_axi_ro___rdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_ro___rresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro___rvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo___awready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_wo___bresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo___bvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo___wready ;
-  (* src = "dma_axi_lite.py:63" *)
-  reg [31:0] \$next\start ;
-  (* src = "dma_axi_lite.py:125" *)
-  reg [31:0] \$next\wdata_v ;
-  (* src = "dma_axi_lite.py:116" *)
-  reg \$next\wready_v ;
-  (* src = "dma_axi_lite.py:60" *)
-  reg [31:0] \$next\write_addr ;
-  (* src = "dma_axi_lite.py:126" *)
-  reg [3:0] \$next\wstrb_v ;
-  (* init = 32'd0 *)
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(s_axi_areset_n_, read_addr, write_addr, start, in1, in2, in3, in4, in5, in6, in7, in8, in9, s_axi_ro___arready, s_axi_ro___rdata, s_axi_ro___rresp, s_axi_ro___rvalid, s_axi_ri___araddr, s_axi_ri___arprot, s_axi_ri___arvalid, s_axi_ri___rready
+, s_axi_wo___awready, s_axi_wo___wready, s_axi_wo___bresp, s_axi_wo___bvalid, s_axi_wi___awaddr, s_axi_wi___awprot, s_axi_wi___awvalid, s_axi_wi___wdata, s_axi_wi___wstrb, s_axi_wi___wvalid, s_axi_wi___bready, clk, rst, s_axi_aclk_);
+  reg \$auto$verilog_backend.cc:2184:dump_module$14  = 0;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$1 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$11 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$13 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$15 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$17 ;
+  (* src = "dma_axi_lite.py:225" *)
+  wire [31:0] \$19 ;
+  (* src = "dma_axi_lite.py:248" *)
+  wire [31:0] \$21 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$23 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$25 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$27 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$29 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$3 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$31 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$33 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$35 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$37 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$39 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$41 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$43 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$45 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$47 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$49 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$5 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$51 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$7 ;
+  (* src = "dma_axi_lite.py:257" *)
+  wire \$9 ;
   (* src = "dma_axi_lite.py:110" *)
   reg [31:0] addr_v = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "dma_axi_lite.py:110" *)
+  reg [31:0] \addr_v$next ;
   (* src = "dma_axi_lite.py:112" *)
   reg arready_v = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "dma_axi_lite.py:112" *)
+  reg \arready_v$next ;
   (* src = "dma_axi_lite.py:115" *)
   reg awready_v = 1'h0;
+  (* src = "dma_axi_lite.py:115" *)
+  reg \awready_v$next ;
   (* src = "dma_axi_lite.py:134" *)
   wire basic_enable;
   (* src = "dma_axi_lite.py:135" *)
   wire [3:0] basic_index;
-  (* init = 2'h0 *)
   (* src = "dma_axi_lite.py:122" *)
   reg [1:0] bresp_v = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "dma_axi_lite.py:122" *)
+  reg [1:0] \bresp_v$next ;
   (* src = "dma_axi_lite.py:117" *)
   reg bvalid_v = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "dma_axi_lite.py:117" *)
+  reg \bvalid_v$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire clk;
+  (* src = "dma_axi_lite.py:207" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "dma_axi_lite.py:207" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "dma_axi_lite.py:66" *)
   input [31:0] in1;
+  wire [31:0] in1;
   (* src = "dma_axi_lite.py:67" *)
   input [31:0] in2;
+  wire [31:0] in2;
   (* src = "dma_axi_lite.py:68" *)
   input [31:0] in3;
+  wire [31:0] in3;
   (* src = "dma_axi_lite.py:69" *)
   input [31:0] in4;
+  wire [31:0] in4;
   (* src = "dma_axi_lite.py:70" *)
   input [31:0] in5;
+  wire [31:0] in5;
   (* src = "dma_axi_lite.py:71" *)
   input [31:0] in6;
+  wire [31:0] in6;
   (* src = "dma_axi_lite.py:72" *)
   input [31:0] in7;
+  wire [31:0] in7;
   (* src = "dma_axi_lite.py:73" *)
   input [31:0] in8;
+  wire [31:0] in8;
   (* src = "dma_axi_lite.py:74" *)
   input [31:0] in9;
-  (* init = 32'd0 *)
+  wire [31:0] in9;
   (* src = "dma_axi_lite.py:119" *)
   reg [31:0] rdata_v = 32'd0;
-  (* init = 32'd0 *)
+  (* src = "dma_axi_lite.py:119" *)
+  reg [31:0] \rdata_v$next ;
   (* src = "dma_axi_lite.py:59" *)
   output [31:0] read_addr;
   reg [31:0] read_addr = 32'd0;
-  (* init = 2'h0 *)
+  (* src = "dma_axi_lite.py:59" *)
+  reg [31:0] \read_addr$next ;
   (* src = "dma_axi_lite.py:120" *)
   reg [1:0] rresp_v = 2'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "dma_axi_lite.py:120" *)
+  reg [1:0] \rresp_v$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "dma_axi_lite.py:113" *)
   reg rvalid_v = 1'h0;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "dma_axi_lite.py:113" *)
+  reg \rvalid_v$next ;
+  (* src = "dma_axi_lite.py:49" *)
+  input s_axi_aclk_;
+  wire s_axi_aclk_;
+  (* src = "dma_axi_lite.py:50" *)
+  input s_axi_areset_n_;
+  wire s_axi_areset_n_;
+  (* src = "dma_axi_lite.py:54" *)
   input [31:0] s_axi_ri___araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri___araddr;
+  (* src = "dma_axi_lite.py:54" *)
+  input [2:0] s_axi_ri___arprot;
+  wire [2:0] s_axi_ri___arprot;
+  (* src = "dma_axi_lite.py:54" *)
   input s_axi_ri___arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri___arvalid;
+  (* src = "dma_axi_lite.py:54" *)
   input s_axi_ri___rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri___rready;
+  (* src = "dma_axi_lite.py:53" *)
   output s_axi_ro___arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro___arready;
+  (* src = "dma_axi_lite.py:53" *)
   output [31:0] s_axi_ro___rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro___rdata;
+  (* src = "dma_axi_lite.py:53" *)
   output [1:0] s_axi_ro___rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro___rresp;
+  (* src = "dma_axi_lite.py:53" *)
   output s_axi_ro___rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro___rvalid;
+  (* src = "dma_axi_lite.py:56" *)
   input [31:0] s_axi_wi___awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi___awaddr;
+  (* src = "dma_axi_lite.py:56" *)
+  input [2:0] s_axi_wi___awprot;
+  wire [2:0] s_axi_wi___awprot;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___awvalid;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___bready;
+  (* src = "dma_axi_lite.py:56" *)
   input [31:0] s_axi_wi___wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi___wdata;
+  (* src = "dma_axi_lite.py:56" *)
   input [3:0] s_axi_wi___wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi___wstrb;
+  (* src = "dma_axi_lite.py:56" *)
   input s_axi_wi___wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi___wvalid;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo___awready;
+  (* src = "dma_axi_lite.py:55" *)
   output [1:0] s_axi_wo___bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo___bresp;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo___bvalid;
+  (* src = "dma_axi_lite.py:55" *)
   output s_axi_wo___wready;
-  (* init = 32'd0 *)
+  wire s_axi_wo___wready;
   (* src = "dma_axi_lite.py:63" *)
   output [31:0] start;
   reg [31:0] start = 32'd0;
+  (* src = "dma_axi_lite.py:63" *)
+  reg [31:0] \start$next ;
   (* src = "dma_axi_lite.py:125" *)
-  wire [31:0] wdata_v;
-  (* init = 1'h0 *)
+  reg [31:0] wdata_v;
   (* src = "dma_axi_lite.py:116" *)
   reg wready_v = 1'h0;
-  (* init = 32'd0 *)
+  (* src = "dma_axi_lite.py:116" *)
+  reg \wready_v$next ;
   (* src = "dma_axi_lite.py:60" *)
   output [31:0] write_addr;
   reg [31:0] write_addr = 32'd0;
+  (* src = "dma_axi_lite.py:60" *)
+  reg [31:0] \write_addr$next ;
   (* src = "dma_axi_lite.py:126" *)
-  wire [3:0] wstrb_v;
-  assign \$1  = s_axi_ri___araddr >>> (* src = "dma_axi_lite.py:225" *) 2'h2;
-  assign \$3  = s_axi_wi___awaddr >>> (* src = "dma_axi_lite.py:248" *) 2'h2;
+  reg [3:0] wstrb_v;
+  assign \$9  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$11  = \$7  & (* src = "dma_axi_lite.py:257" *) \$9 ;
+  assign \$13  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$15  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$17  = \$13  & (* src = "dma_axi_lite.py:257" *) \$15 ;
+  assign \$1  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$19  = s_axi_ri___araddr >>> (* src = "dma_axi_lite.py:225" *) 2'h2;
+  assign \$21  = s_axi_wi___awaddr >>> (* src = "dma_axi_lite.py:248" *) 2'h2;
+  assign \$23  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$25  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$27  = \$23  & (* src = "dma_axi_lite.py:257" *) \$25 ;
+  assign \$29  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$31  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$33  = \$29  & (* src = "dma_axi_lite.py:257" *) \$31 ;
+  assign \$35  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$37  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$3  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$39  = \$35  & (* src = "dma_axi_lite.py:257" *) \$37 ;
+  assign \$41  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$43  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$45  = \$41  & (* src = "dma_axi_lite.py:257" *) \$43 ;
+  assign \$47  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$49  = wready_v == (* src = "dma_axi_lite.py:257" *) 1'h1;
+  assign \$51  = \$47  & (* src = "dma_axi_lite.py:257" *) \$49 ;
+  assign \$5  = \$1  & (* src = "dma_axi_lite.py:257" *) \$3 ;
+  assign \$7  = s_axi_wi___wvalid == (* src = "dma_axi_lite.py:257" *) 1'h1;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      addr_v <= \$next\addr_v ;
+    addr_v <= \addr_v$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      bvalid_v <= \$next\bvalid_v ;
+    bvalid_v <= \bvalid_v$next ;
   always @(posedge clk)
-      rvalid_v <= \$next\rvalid_v ;
+    rvalid_v <= \rvalid_v$next ;
   always @(posedge clk)
-      write_addr <= \$next\write_addr ;
+    write_addr <= \write_addr$next ;
   always @(posedge clk)
-      read_addr <= \$next\read_addr ;
+    read_addr <= \read_addr$next ;
   always @(posedge clk)
-      bresp_v <= \$next\bresp_v ;
+    bresp_v <= \bresp_v$next ;
   always @(posedge clk)
-      wready_v <= \$next\wready_v ;
+    wready_v <= \wready_v$next ;
   always @(posedge clk)
-      awready_v <= \$next\awready_v ;
+    awready_v <= \awready_v$next ;
   always @(posedge clk)
-      rresp_v <= \$next\rresp_v ;
+    rresp_v <= \rresp_v$next ;
   always @(posedge clk)
-      rdata_v <= \$next\rdata_v ;
+    rdata_v <= \rdata_v$next ;
   always @(posedge clk)
-      arready_v <= \$next\arready_v ;
+    arready_v <= \arready_v$next ;
   always @* begin
-    \$next\wdata_v  = 32'd0;
-    \$next\wdata_v  = 32'd0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    wdata_v = 32'd0;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$5 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
-                \$next\wdata_v  = s_axi_wi___wdata;
+                wdata_v = s_axi_wi___wdata;
           endcase
     endcase
   end
   always @* begin
-    \$next\wstrb_v  = 4'h0;
-    \$next\wstrb_v  = 4'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    wstrb_v = 4'h0;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$11 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
-                \$next\wstrb_v  = s_axi_wi___wstrb;
+                wstrb_v = s_axi_wi___wstrb;
           endcase
     endcase
   end
   always @* begin
-    \$next\rresp_v  = rresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \rresp_v$next  = rresp_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:234" *)
           casez (basic_enable)
+            /* src = "dma_axi_lite.py:234" */
             1'h1:
-                \$next\rresp_v  = 2'h0;
-            1'hz:
-                \$next\rresp_v  = 2'h3;
+                \rresp_v$next  = 2'h0;
+            /* src = "dma_axi_lite.py:237" */
+            default:
+                \rresp_v$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\rresp_v  = 2'h0;
+          \rresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\awready_v  = awready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \awready_v$next  = awready_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       3'h2:
-          \$next\awready_v  = 1'h1;
+          \awready_v$next  = 1'h1;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wready_v  = wready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \wready_v$next  = wready_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          \$next\wready_v  = 1'h1;
+        begin
+          \wready_v$next  = 1'h1;
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$27 )
+            /* src = "dma_axi_lite.py:257" */
+            1'h1:
+                \wready_v$next  = 1'h0;
+          endcase
+        end
+      /* src = "dma_axi_lite.py:272" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/5" */
       3'h5:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bresp_v  = bresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \bresp_v$next  = bresp_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$33 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
-                      \$next\bresp_v  = 2'h0;
+                      \bresp_v$next  = 2'h0;
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
+                              4'h2:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:184" */
                               4'h3:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:186" */
                               4'h4:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:188" */
                               4'h5:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:190" */
                               4'h6:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:192" */
                               4'h7:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:194" */
                               4'h8:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:196" */
                               4'h9:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:198" */
                               4'ha:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
+                              /* src = "dma_axi_lite.py:200" */
                               4'hb:
-                                  \$next\bresp_v  = 2'h2;
+                                  \bresp_v$next  = 2'h2;
                             endcase
                       endcase
                     end
-                  1'hz:
-                      \$next\bresp_v  = 2'h3;
+                  /* src = "dma_axi_lite.py:267" */
+                  default:
+                      \bresp_v$next  = 2'h3;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\bresp_v  = 2'h0;
+          \bresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\read_addr  = read_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \read_addr$next  = read_addr;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$39 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [7:0] = wdata_v[7:0];
+                                  \read_addr$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [15:8] = wdata_v[15:8];
+                                  \read_addr$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [23:16] = wdata_v[23:16];
+                                  \read_addr$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
                               4'h0:
-                                  \$next\read_addr [31:24] = wdata_v[31:24];
+                                  \read_addr$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\read_addr  = 32'd0;
+          \read_addr$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\write_addr  = write_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \write_addr$next  = write_addr;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$45 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [7:0] = wdata_v[7:0];
+                                  \write_addr$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [15:8] = wdata_v[15:8];
+                                  \write_addr$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [23:16] = wdata_v[23:16];
+                                  \write_addr$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
                               4'h1:
-                                  \$next\write_addr [31:24] = wdata_v[31:24];
+                                  \write_addr$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\write_addr  = 32'd0;
+          \write_addr$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \start$next  = start;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$51 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
+                (* src = "dma_axi_lite.py:264" *)
                 casez (basic_enable)
+                  /* src = "dma_axi_lite.py:264" */
                   1'h1:
                     begin
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[0])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [7:0] = wdata_v[7:0];
+                                  \start$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[1])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [15:8] = wdata_v[15:8];
+                                  \start$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[2])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [23:16] = wdata_v[23:16];
+                                  \start$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "dma_axi_lite.py:176" *)
                       casez (wstrb_v[3])
+                        /* src = "dma_axi_lite.py:176" */
                         1'h1:
+                            (* src = "dma_axi_lite.py:177" *)
                             casez (basic_index)
+                              /* src = "dma_axi_lite.py:178" */
+                              4'h0:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:180" */
+                              4'h1:
+                                  /* empty */;
+                              /* src = "dma_axi_lite.py:182" */
                               4'h2:
-                                  \$next\start [31:24] = wdata_v[31:24];
+                                  \start$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 32'd0;
+          \start$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\s_axi_ro___arready  = 1'h0;
-    \$next\s_axi_ro___arready  = arready_v;
-  end
-  always @* begin
-    \$next\s_axi_ro___rvalid  = 1'h0;
-    \$next\s_axi_ro___rvalid  = rvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_wo___awready  = 1'h0;
-    \$next\s_axi_wo___awready  = awready_v;
-  end
-  always @* begin
-    \$next\basic_enable  = 1'h0;
-    \$next\basic_enable  = addr_v[10];
-  end
-  always @* begin
-    \$next\s_axi_wo___wready  = 1'h0;
-    \$next\s_axi_wo___wready  = wready_v;
-  end
-  always @* begin
-    \$next\s_axi_wo___bvalid  = 1'h0;
-    \$next\s_axi_wo___bvalid  = bvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_ro___rdata  = 32'd0;
-    \$next\s_axi_ro___rdata  = rdata_v;
-  end
-  always @* begin
-    \$next\s_axi_ro___rresp  = 2'h0;
-    \$next\s_axi_ro___rresp  = rresp_v;
-  end
-  always @* begin
-    \$next\s_axi_wo___bresp  = 2'h0;
-    \$next\s_axi_wo___bresp  = bresp_v;
-  end
-  always @* begin
-    \$next\basic_index  = 4'h0;
-    \$next\basic_index  = addr_v[3:0];
-  end
-  always @* begin
-    \$next\rvalid_v  = rvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \rvalid_v$next  = rvalid_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:240" *)
           casez (s_axi_ri___rready)
+            /* src = "dma_axi_lite.py:240" */
             1'h1:
-                \$next\rvalid_v  = 1'h1;
+                \rvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bvalid_v  = bvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \bvalid_v$next  = bvalid_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      3'h2:
+          /* empty */;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
+      3'h4:
+          /* empty */;
+      /* src = "dma_axi_lite.py:272" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/5" */
       3'h5:
+          (* src = "dma_axi_lite.py:275" *)
           casez (s_axi_wi___bready)
+            /* src = "dma_axi_lite.py:275" */
             1'h1:
-                \$next\bvalid_v  = 1'h1;
+                \bvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
+          (* src = "dma_axi_lite.py:216" *)
           casez ({ s_axi_wi___awvalid, s_axi_ri___arvalid })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
+            /* src = "dma_axi_lite.py:216" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "dma_axi_lite.py:218" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
           endcase
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       3'h1:
-          \$next\fsm_state  = 3'h3;
+          \fsm_state$next  = 3'h3;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:240" *)
           casez (s_axi_ri___rready)
+            /* src = "dma_axi_lite.py:240" */
             1'h1:
-                \$next\fsm_state  = 3'h0;
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       3'h2:
-          \$next\fsm_state  = 3'h4;
+          \fsm_state$next  = 3'h4;
+      /* src = "dma_axi_lite.py:254" */
+      /* \nmigen.decoding  = "WRITE_DATA/4" */
       3'h4:
-          casez (s_axi_wi___wvalid)
+          (* src = "dma_axi_lite.py:257" *)
+          casez (\$17 )
+            /* src = "dma_axi_lite.py:257" */
             1'h1:
-                \$next\fsm_state  = 3'h5;
+                \fsm_state$next  = 3'h5;
           endcase
+      /* src = "dma_axi_lite.py:272" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/5" */
       3'h5:
+          (* src = "dma_axi_lite.py:275" *)
           casez (s_axi_wi___bready)
+            /* src = "dma_axi_lite.py:275" */
             1'h1:
-                \$next\fsm_state  = 3'h0;
+                \fsm_state$next  = 3'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\addr_v  = addr_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \addr_v$next  = addr_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       3'h1:
-          \$next\addr_v  = \$1 ;
+          \addr_v$next  = \$19 ;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
+      3'h3:
+          /* empty */;
+      /* src = "dma_axi_lite.py:245" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       3'h2:
-          \$next\addr_v  = \$3 ;
+          \addr_v$next  = \$21 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\addr_v  = 32'd0;
+          \addr_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\arready_v  = arready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \arready_v$next  = arready_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       3'h1:
-          \$next\arready_v  = 1'h1;
+          \arready_v$next  = 1'h1;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdata_v  = rdata_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$14 ) begin end
+    \rdata_v$next  = rdata_v;
+    (* src = "dma_axi_lite.py:207" *)
     casez (fsm_state)
+      /* src = "dma_axi_lite.py:209" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "dma_axi_lite.py:222" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      3'h1:
+          /* empty */;
+      /* src = "dma_axi_lite.py:231" */
+      /* \nmigen.decoding  = "READ_DATA/3" */
       3'h3:
+          (* src = "dma_axi_lite.py:234" *)
           casez (basic_enable)
+            /* src = "dma_axi_lite.py:234" */
             1'h1:
+                (* src = "dma_axi_lite.py:143" *)
                 casez (basic_index)
+                  /* src = "dma_axi_lite.py:144" */
                   4'h0:
-                      \$next\rdata_v  = read_addr;
+                      \rdata_v$next  = read_addr;
+                  /* src = "dma_axi_lite.py:146" */
                   4'h1:
-                      \$next\rdata_v  = write_addr;
+                      \rdata_v$next  = write_addr;
+                  /* src = "dma_axi_lite.py:148" */
                   4'h2:
-                      \$next\rdata_v  = start;
+                      \rdata_v$next  = start;
+                  /* src = "dma_axi_lite.py:150" */
                   4'h3:
-                      \$next\rdata_v  = in1;
+                      \rdata_v$next  = in1;
+                  /* src = "dma_axi_lite.py:152" */
                   4'h4:
-                      \$next\rdata_v  = in2;
+                      \rdata_v$next  = in2;
+                  /* src = "dma_axi_lite.py:154" */
                   4'h5:
-                      \$next\rdata_v  = in3;
+                      \rdata_v$next  = in3;
+                  /* src = "dma_axi_lite.py:156" */
                   4'h6:
-                      \$next\rdata_v  = in4;
+                      \rdata_v$next  = in4;
+                  /* src = "dma_axi_lite.py:158" */
                   4'h7:
-                      \$next\rdata_v  = in5;
+                      \rdata_v$next  = in5;
+                  /* src = "dma_axi_lite.py:160" */
                   4'h8:
-                      \$next\rdata_v  = in6;
+                      \rdata_v$next  = in6;
+                  /* src = "dma_axi_lite.py:162" */
                   4'h9:
-                      \$next\rdata_v  = in7;
+                      \rdata_v$next  = in7;
+                  /* src = "dma_axi_lite.py:164" */
                   4'ha:
-                      \$next\rdata_v  = in8;
+                      \rdata_v$next  = in8;
+                  /* src = "dma_axi_lite.py:166" */
                   4'hb:
-                      \$next\rdata_v  = in9;
+                      \rdata_v$next  = in9;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\rdata_v  = 32'd0;
+          \rdata_v$next  = 32'd0;
     endcase
   end
-  assign s_axi_wo___bresp = \$next\s_axi_wo___bresp ;
-  assign s_axi_ro___rresp = \$next\s_axi_ro___rresp ;
-  assign s_axi_ro___rdata = \$next\s_axi_ro___rdata ;
-  assign s_axi_wo___bvalid = \$next\s_axi_wo___bvalid ;
-  assign s_axi_wo___wready = \$next\s_axi_wo___wready ;
-  assign s_axi_wo___awready = \$next\s_axi_wo___awready ;
-  assign s_axi_ro___rvalid = \$next\s_axi_ro___rvalid ;
-  assign s_axi_ro___arready = \$next\s_axi_ro___arready ;
-  assign basic_index = \$next\basic_index ;
-  assign basic_enable = \$next\basic_enable ;
-  assign wstrb_v = \$next\wstrb_v ;
-  assign wdata_v = \$next\wdata_v ;
+  assign s_axi_wo___bresp = bresp_v;
+  assign s_axi_ro___rresp = rresp_v;
+  assign s_axi_ro___rdata = rdata_v;
+  assign s_axi_wo___bvalid = bvalid_v;
+  assign s_axi_wo___wready = wready_v;
+  assign s_axi_wo___awready = awready_v;
+  assign s_axi_ro___rvalid = rvalid_v;
+  assign s_axi_ro___arready = arready_v;
+  assign basic_index = addr_v[3:0];
+  assign basic_enable = addr_v[10];
 endmodule
 
diff --git a/verilog_src/encode.v b/verilog_src/encode.v
index c62ba1f..f46c7cf 100644
--- a/verilog_src/encode.v
+++ b/verilog_src/encode.v
@@ -1,267 +1,264 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.U$$0" *)
+module \U$$0 (end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, rst, clk, val_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$9  = 0;
+  (* src = "encode.py:144" *)
   wire \$1 ;
+  (* src = "encode.py:151" *)
   wire [36:0] \$3 ;
+  (* src = "encode.py:151" *)
   wire [36:0] \$4 ;
+  (* src = "encode.py:144" *)
   wire \$6 ;
+  (* src = "encode.py:152" *)
   wire [5:0] \$8 ;
+  (* src = "encode.py:152" *)
   wire [5:0] \$9 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [30:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [15:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:124" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 31'h00000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [30:0] enc_out;
   reg [30:0] enc_out = 31'h00000000;
+  (* src = "encode.py:97" *)
+  reg [30:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [36:0] rp_data;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire [36:0] rp_data;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [15:0] val_in;
-  (* init = 16'h0000 *)
+  wire [15:0] val_in;
   (* src = "encode.py:130" *)
   reg [15:0] val_in_late = 16'h0000;
+  (* src = "encode.py:130" *)
+  reg [15:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$9  = rp_data[36:32] + (* src = "encode.py:152" *) ssss_late[3:0];
   assign \$1  = ssss_late == (* src = "encode.py:144" *) 5'h10;
   assign \$4  = rp_data | (* src = "encode.py:151" *) val_in_late;
   assign \$6  = ssss_late == (* src = "encode.py:144" *) 5'h10;
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 16'h0000;
+          \val_in_late$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
+          (* src = "encode.py:144" *)
           casez (\$1 )
+            /* src = "encode.py:144" */
             1'h1:
-                \$next\enc_out  = rp_data[30:0];
-            1'hz:
-                \$next\enc_out  = \$3 [30:0];
+                \enc_out$next  = rp_data[30:0];
+            /* src = "encode.py:149" */
+            default:
+                \enc_out$next  = \$4 [30:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 31'h00000000;
+          \enc_out$next  = 31'h00000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$9 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
+          (* src = "encode.py:144" *)
           casez (\$6 )
+            /* src = "encode.py:144" */
             1'h1:
-                \$next\enc_ctr  = rp_data[36:32];
-            1'hz:
-                \$next\enc_ctr  = \$8 [4:0];
+                \enc_ctr$next  = rp_data[36:32];
+            /* src = "encode.py:149" */
+            default:
+                \enc_ctr$next  = \$9 [4:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$3  = \$4 ;
   assign \$8  = \$9 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(end_in, valid_in, ssss, rst, clk, enc_out, enc_ctr, valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:182" *)
-  reg [30:0] \$next\enc_out ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(enc_ctr, val_in, valid_in, valid_out, ssss, end_in, end_out, clk, rst, enc_out);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [30:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$2 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [4:0] \$next\mem_r_addr ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [36:0] \$next\rp_data ;
+  wire [36:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$3 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [15:0] \$next\val_in$4 ;
+  wire [15:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$1 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:124" *)
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$8 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:182" *)
   output [30:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [30:0] \enc_out$7 ;
+  wire [30:0] enc_out;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$2 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$6 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [4:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
   wire [36:0] mem_r_data;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  wire [36:0] rp_data;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$3 ;
+  wire [4:0] ssss;
   (* src = "encode.py:177" *)
   input [15:0] val_in;
-  (* src = "encode.py:92" *)
-  wire [15:0] \val_in$4 ;
+  wire [15:0] val_in;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$1 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$5 ;
-  anonymous \$9  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$8 ),
-    .enc_out(\enc_out$7 ),
-    .end_in(\end_in$2 ),
-    .end_out(\end_out$6 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$3 ),
-    .val_in(\val_in$4 ),
-    .valid_in(\valid_in$1 ),
-    .valid_out(\valid_out$5 )
-  );
+  wire valid_out;
   reg [36:0] mem [16:0];
   initial begin
     mem[0] = 37'h040000000e;
@@ -282,60 +279,34 @@ module top(end_in, valid_in, ssss, rst, clk, enc_out, enc_ctr, valid_out, end_ou
     mem[15] = 37'h0c07ff0000;
     mem[16] = 37'h0d00001ffe;
   end
-  reg [4:0] _0_;
+  reg [36:0] _0_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr ;
-  end
-  assign mem_r_data = mem[_0_];
-  always @* begin
-    \$next\val_in$4  = 16'h0000;
-    \$next\val_in$4  = val_in;
-  end
-  always @* begin
-    \$next\end_in$2  = 1'h0;
-    \$next\end_in$2  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$1  = 1'h0;
-    \$next\valid_in$1  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 5'h00;
-    \$next\mem_r_addr  = rp_addr;
-  end
-  always @* begin
-    \$next\rp_data  = 37'h0000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 31'h00000000;
-    \$next\enc_out  = \enc_out$7 ;
+    _0_ <= mem[mem_r_addr];
   end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$8 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$5 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$6 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \valid_in$1  = \$next\valid_in$1 ;
-  assign \end_in$2  = \$next\end_in$2 ;
-  assign \val_in$4  = \$next\val_in$4 ;
+  assign mem_r_data = _0_;
+  \U$$0  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr ;
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
diff --git a/verilog_src/fix_0xff.v b/verilog_src/fix_0xff.v
index ea5ef7b..1493fe7 100644
--- a/verilog_src/fix_0xff.v
+++ b/verilog_src/fix_0xff.v
@@ -1,151 +1,217 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(valid_in, end_in, data_in, rst, clk, valid_out, o_busy, data_out, data_out_ctr, end_out, i_busy);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, o_busy, i_busy, data_out, data_out_ctr, data_in, end_in, end_out, clk, rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$12  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -217,230 +283,318 @@ module top(valid_in, end_in, data_in, rst, clk, valid_out, o_busy, data_out, dat
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
diff --git a/verilog_src/fix_0xff2.v b/verilog_src/fix_0xff2.v
index 4a85fa1..7918bda 100644
--- a/verilog_src/fix_0xff2.v
+++ b/verilog_src/fix_0xff2.v
@@ -1,221 +1,357 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, o_busy, data_out, end_out, i_busy);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, o_busy, i_busy, data_out, data_in_ctr, data_in, end_in, end_out, clk, rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$12  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -328,24 +464,24 @@ module top(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, o_busy,
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -356,817 +492,1289 @@ module top(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, o_busy,
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
-              begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$12 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
diff --git a/verilog_src/force_end.v b/verilog_src/force_end.v
index e08ba28..041089d 100644
--- a/verilog_src/force_end.v
+++ b/verilog_src/force_end.v
@@ -1,83 +1,121 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(allowed_cycles, rst, clk, fend, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(allowed_cycles, fend, clk, rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire [23:0] allowed_cycles;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
diff --git a/verilog_src/integration_1.v b/verilog_src/integration_1.v
index a33a869..c1cd365 100644
--- a/verilog_src/integration_1.v
+++ b/verilog_src/integration_1.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.normalize.U$$0" *)
+module \U$$0 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$77  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$77 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$77 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$77 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$77 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.encode.U$$0" *)
+module \U$$0$1 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$78  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$78 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.merge.U$$0" *)
+module \U$$0$3 (clk, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$79  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$79 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$79 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$79 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$79 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.normalize.U$$1" *)
+module \U$$1 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$80  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,197 +947,292 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$80 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$80 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$80 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$80 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -660,861 +1249,824 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.encode.U$$1" *)
+module \U$$1$2 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$81  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
-  output end_out;
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
-  output valid_out;
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$81 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$3 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$4 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 56'h00000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$3  = \$6 ;
-endmodule
-
 (* \nmigen.hierarchy  = "top.core_axi_lite" *)
-(* generator = "nMigen" *)
-module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, full_clk);
-  wire [63:0] \$1 ;
+module core_axi_lite(width, allowed_cycles, rp_data, rp_addr, wp_addr, wp_data, wp_en, rst, clk, full_clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready, s_axi_ro__rvalid
+, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, full_rst, height);
+  reg \$auto$verilog_backend.cc:2184:dump_module$82  = 0;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$1 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$100 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$102 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$104 ;
+  (* src = "core_axi_lite.py:376" *)
   wire \$106 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$108 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$11 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$110 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$112 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$114 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$116 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$118 ;
-  wire [7:0] \$13 ;
-  wire [7:0] \$15 ;
-  wire [7:0] \$17 ;
-  wire [7:0] \$19 ;
-  wire [31:0] \$21 ;
-  wire [31:0] \$23 ;
-  wire [31:0] \$25 ;
-  wire [31:0] \$26 ;
-  wire [31:0] \$28 ;
-  wire [31:0] \$29 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$120 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$122 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$124 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$126 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$128 ;
+  (* src = "core_axi_lite.py:101" *)
+  wire [63:0] \$13 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$130 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$132 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$134 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$136 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$138 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$140 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$142 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$144 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$146 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$148 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$15 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$150 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$152 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$154 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$156 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$158 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$160 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$162 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$164 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$166 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$168 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$17 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$170 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$172 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$174 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$176 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$19 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$21 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$23 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$25 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$27 ;
+  (* src = "core_axi_lite.py:251" *)
+  wire \$29 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$3 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$31 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$33 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$35 ;
-  wire \$37 ;
-  wire \$39 ;
-  wire \$41 ;
-  wire [31:0] \$43 ;
-  wire \$45 ;
+  (* src = "core_axi_lite.py:309" *)
+  wire [31:0] \$37 ;
+  (* src = "core_axi_lite.py:348" *)
+  wire [31:0] \$39 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$41 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$42 ;
+  (* src = "core_axi_lite.py:349" *)
+  wire [31:0] \$44 ;
+  (* src = "core_axi_lite.py:349" *)
+  wire [31:0] \$45 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$47 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$49 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$5 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$51 ;
+  (* src = "core_axi_lite.py:330" *)
   wire \$53 ;
+  (* src = "core_axi_lite.py:242" *)
   wire \$55 ;
+  (* src = "core_axi_lite.py:213" *)
   wire \$57 ;
-  wire \$59 ;
+  (* src = "core_axi_lite.py:84" *)
+  wire [31:0] \$59 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$61 ;
-  wire [5:0] \$63 ;
-  wire [5:0] \$64 ;
-  wire \$66 ;
-  wire \$68 ;
+  (* src = "core_axi_lite.py:327" *)
+  wire \$63 ;
+  (* src = "core_axi_lite.py:327" *)
+  wire \$65 ;
+  (* src = "core_axi_lite.py:330" *)
+  wire \$67 ;
+  (* src = "core_axi_lite.py:213" *)
+  wire \$69 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$7 ;
-  wire \$70 ;
-  wire \$72 ;
-  wire \$74 ;
-  wire \$76 ;
-  wire \$78 ;
-  wire \$80 ;
-  wire \$82 ;
-  wire \$84 ;
-  wire \$86 ;
-  wire \$88 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$71 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$73 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$75 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$77 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$79 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$81 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$83 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$85 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$87 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$89 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$9 ;
-  wire \$90 ;
-  wire \$92 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$91 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$92 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$94 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$96 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$98 ;
   (* src = "core_axi_lite.py:162" *)
-  reg [31:0] \$next\addr_v ;
-  (* src = "core_axi_lite.py:84" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "core_axi_lite.py:164" *)
-  reg \$next\arready_v ;
-  (* src = "core_axi_lite.py:167" *)
-  reg \$next\awready_v ;
-  (* src = "core_axi_lite.py:174" *)
-  reg [1:0] \$next\bresp_v ;
-  (* src = "core_axi_lite.py:169" *)
-  reg \$next\bvalid_v ;
-  (* src = "nmigen/hdl/mem.py:160" *)
-  reg \$next\clk ;
-  (* src = "core_axi_lite.py:188" *)
-  reg \$next\debug_enable ;
-  (* src = "core_axi_lite.py:190" *)
-  reg [2:0] \$next\debug_index ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [3:0] \$next\fsm_state ;
-  (* src = "core_axi_lite.py:80" *)
-  reg [15:0] \$next\height ;
-  (* src = "core_axi_lite.py:111" *)
-  reg [31:0] \$next\height_width ;
-  (* src = "core_axi_lite.py:187" *)
-  reg \$next\hw_enable ;
-  (* src = "core_axi_lite.py:191" *)
-  reg \$next\hw_index ;
-  (* src = "core_axi_lite.py:171" *)
-  reg [31:0] \$next\rdata_v ;
-  (* src = "core_axi_lite.py:100" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "core_axi_lite.py:207" *)
-  reg [63:0] \$next\rp_data64 ;
-  (* src = "core_axi_lite.py:206" *)
-  reg [63:0] \$next\rp_data64_in ;
-  (* src = "core_axi_lite.py:172" *)
-  reg [1:0] \$next\rresp_v ;
-  (* src = "core_axi_lite.py:165" *)
-  reg \$next\rvalid_v ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__arready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\s_axi_ro__rdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_ro__rresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__rvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__awready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_wo__bresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__bvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__wready ;
-  (* src = "core_axi_lite.py:186" *)
-  reg \$next\ssss_enable ;
-  (* src = "core_axi_lite.py:189" *)
-  reg [5:0] \$next\ssss_index ;
-  (* src = "core_axi_lite.py:177" *)
-  reg [31:0] \$next\wdata_v ;
-  (* src = "core_axi_lite.py:81" *)
-  reg [15:0] \$next\width ;
-  (* src = "core_axi_lite.py:95" *)
-  reg [4:0] \$next\wp_addr ;
-  (* src = "core_axi_lite.py:96" *)
-  reg [32:0] \$next\wp_data ;
-  (* src = "core_axi_lite.py:97" *)
-  reg \$next\wp_en ;
-  (* src = "core_axi_lite.py:168" *)
-  reg \$next\wready_v ;
-  (* src = "core_axi_lite.py:178" *)
-  reg [3:0] \$next\wstrb_v ;
-  (* init = 32'd0 *)
-  (* src = "core_axi_lite.py:162" *)
   reg [31:0] addr_v = 32'd0;
-  (* init = 24'h000000 *)
+  (* src = "core_axi_lite.py:162" *)
+  reg [31:0] \addr_v$next ;
   (* src = "core_axi_lite.py:84" *)
   output [23:0] allowed_cycles;
   reg [23:0] allowed_cycles = 24'h000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:84" *)
+  reg [23:0] \allowed_cycles$next ;
   (* src = "core_axi_lite.py:164" *)
   reg arready_v = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:164" *)
+  reg \arready_v$next ;
   (* src = "core_axi_lite.py:167" *)
   reg awready_v = 1'h0;
-  (* init = 2'h0 *)
+  (* src = "core_axi_lite.py:167" *)
+  reg \awready_v$next ;
   (* src = "core_axi_lite.py:174" *)
   reg [1:0] bresp_v = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:174" *)
+  reg [1:0] \bresp_v$next ;
   (* src = "core_axi_lite.py:169" *)
   reg bvalid_v = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "core_axi_lite.py:169" *)
+  reg \bvalid_v$next ;
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "core_axi_lite.py:188" *)
   wire debug_enable;
   (* src = "core_axi_lite.py:190" *)
   wire [2:0] debug_index;
-  (* init = 4'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "core_axi_lite.py:291" *)
   reg [3:0] fsm_state = 4'h0;
+  (* src = "core_axi_lite.py:291" *)
+  reg [3:0] \fsm_state$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "core_axi_lite.py:80" *)
   output [15:0] height;
-  (* init = 32'd0 *)
+  wire [15:0] height;
   (* src = "core_axi_lite.py:111" *)
   reg [31:0] height_width = 32'd0;
+  (* src = "core_axi_lite.py:111" *)
+  reg [31:0] \height_width$next ;
   (* src = "core_axi_lite.py:187" *)
   wire hw_enable;
   (* src = "core_axi_lite.py:191" *)
   wire hw_index;
-  (* init = 32'd0 *)
   (* src = "core_axi_lite.py:171" *)
   reg [31:0] rdata_v = 32'd0;
-  (* init = 5'h00 *)
+  (* src = "core_axi_lite.py:171" *)
+  reg [31:0] \rdata_v$next ;
   (* src = "core_axi_lite.py:100" *)
   output [4:0] rp_addr;
   reg [4:0] rp_addr = 5'h00;
+  (* src = "core_axi_lite.py:100" *)
+  reg [4:0] \rp_addr$next ;
   (* src = "core_axi_lite.py:101" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "core_axi_lite.py:207" *)
   wire [63:0] rp_data64;
   (* src = "core_axi_lite.py:206" *)
-  wire [63:0] rp_data64_in;
-  (* init = 2'h0 *)
+  reg [63:0] rp_data64_in;
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
+  (* src = "core_axi_lite.py:172" *)
+  reg [1:0] \rresp_v$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:165" *)
+  reg \rvalid_v$next ;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__arready;
   wire s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:74" *)
+  output [31:0] s_axi_ro__rdata;
   wire [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:74" *)
+  output [1:0] s_axi_ro__rresp;
   wire [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__rvalid;
   wire s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__awready;
   wire s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:76" *)
+  output [1:0] s_axi_wo__bresp;
   wire [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__bvalid;
   wire s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__wready;
   wire s_axi_wo__wready;
   (* src = "core_axi_lite.py:186" *)
   wire ssss_enable;
   (* src = "core_axi_lite.py:189" *)
   wire [5:0] ssss_index;
   (* src = "core_axi_lite.py:177" *)
-  wire [31:0] wdata_v;
+  reg [31:0] wdata_v;
   (* src = "core_axi_lite.py:81" *)
   output [15:0] width;
-  (* init = 5'h00 *)
+  wire [15:0] width;
   (* src = "core_axi_lite.py:95" *)
   output [4:0] wp_addr;
   reg [4:0] wp_addr = 5'h00;
-  (* init = 33'h000000000 *)
+  (* src = "core_axi_lite.py:95" *)
+  reg [4:0] \wp_addr$next ;
   (* src = "core_axi_lite.py:96" *)
   output [32:0] wp_data;
   reg [32:0] wp_data = 33'h000000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:96" *)
+  reg [32:0] \wp_data$next ;
   (* src = "core_axi_lite.py:97" *)
   output wp_en;
   reg wp_en = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:97" *)
+  reg \wp_en$next ;
   (* src = "core_axi_lite.py:168" *)
   reg wready_v = 1'h0;
+  (* src = "core_axi_lite.py:168" *)
+  reg \wready_v$next ;
   (* src = "core_axi_lite.py:178" *)
-  wire [3:0] wstrb_v;
-  assign \$9  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$100  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$102  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$104  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$106  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$108  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$110  = \$106  & (* src = "core_axi_lite.py:372" *) \$108 ;
-  assign \$112  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$114  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$116  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$118  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$11  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$13  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$15  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$17  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$1  = + (* src = "core_axi_lite.py:101" *) rp_data;
-  assign \$19  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$21  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
-  assign \$23  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
-  assign \$26  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
-  assign \$29  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
-  assign \$31  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
-  assign \$33  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
-  assign \$35  = \$31  & (* src = "core_axi_lite.py:327" *) \$33 ;
-  assign \$37  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
-  assign \$3  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$39  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
-  assign \$41  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$43  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
-  assign \$45  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
-  assign \$47  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
-  assign \$49  = \$45  & (* src = "core_axi_lite.py:327" *) \$47 ;
-  assign \$51  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
-  assign \$53  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$55  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$57  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$5  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$59  = \$55  & (* src = "core_axi_lite.py:372" *) \$57 ;
-  assign \$61  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$64  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
-  assign \$66  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$68  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$70  = \$66  & (* src = "core_axi_lite.py:372" *) \$68 ;
-  assign \$72  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$74  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$76  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$78  = \$74  & (* src = "core_axi_lite.py:372" *) \$76 ;
-  assign \$7  = \$3  & (* src = "core_axi_lite.py:372" *) \$5 ;
-  assign \$80  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$82  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$84  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$86  = \$82  & (* src = "core_axi_lite.py:372" *) \$84 ;
-  assign \$88  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$90  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$92  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$94  = \$90  & (* src = "core_axi_lite.py:372" *) \$92 ;
-  assign \$96  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$98  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  reg [3:0] wstrb_v;
+  assign \$9  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$100  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$102  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$104  = \$100  & (* src = "core_axi_lite.py:373" *) \$102 ;
+  assign \$106  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$108  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$110  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$112  = \$108  & (* src = "core_axi_lite.py:366" *) \$110 ;
+  assign \$114  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$116  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$118  = \$114  & (* src = "core_axi_lite.py:373" *) \$116 ;
+  assign \$11  = \$7  & (* src = "core_axi_lite.py:366" *) \$9 ;
+  assign \$120  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$122  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$124  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$126  = \$122  & (* src = "core_axi_lite.py:366" *) \$124 ;
+  assign \$128  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$130  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$132  = \$128  & (* src = "core_axi_lite.py:373" *) \$130 ;
+  assign \$134  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$136  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$138  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$13  = + (* src = "core_axi_lite.py:101" *) rp_data;
+  assign \$140  = \$136  & (* src = "core_axi_lite.py:366" *) \$138 ;
+  assign \$142  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$144  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$146  = \$142  & (* src = "core_axi_lite.py:373" *) \$144 ;
+  assign \$148  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$150  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$152  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$154  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$156  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$158  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$15  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$160  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$162  = \$158  & (* src = "core_axi_lite.py:366" *) \$160 ;
+  assign \$164  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$166  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$168  = \$164  & (* src = "core_axi_lite.py:373" *) \$166 ;
+  assign \$170  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$172  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$174  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$176  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$17  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$1  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$19  = \$15  & (* src = "core_axi_lite.py:366" *) \$17 ;
+  assign \$21  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$23  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$25  = \$21  & (* src = "core_axi_lite.py:373" *) \$23 ;
+  assign \$27  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$29  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
+  assign \$31  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$33  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$35  = \$31  & (* src = "core_axi_lite.py:366" *) \$33 ;
+  assign \$37  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
+  assign \$3  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$39  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
+  assign \$42  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
+  assign \$45  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
+  assign \$47  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
+  assign \$49  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
+  assign \$51  = \$47  & (* src = "core_axi_lite.py:327" *) \$49 ;
+  assign \$53  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
+  assign \$55  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
+  assign \$57  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$5  = \$1  & (* src = "core_axi_lite.py:366" *) \$3 ;
+  assign \$59  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
+  assign \$61  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
+  assign \$63  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
+  assign \$65  = \$61  & (* src = "core_axi_lite.py:327" *) \$63 ;
+  assign \$67  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
+  assign \$69  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$71  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$73  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$75  = \$71  & (* src = "core_axi_lite.py:366" *) \$73 ;
+  assign \$77  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$7  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$79  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$81  = \$77  & (* src = "core_axi_lite.py:366" *) \$79 ;
+  assign \$83  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$85  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$87  = \$83  & (* src = "core_axi_lite.py:373" *) \$85 ;
+  assign \$89  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$92  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
+  assign \$94  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$96  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$98  = \$94  & (* src = "core_axi_lite.py:366" *) \$96 ;
   always @(posedge full_clk)
-      wready_v <= \$next\wready_v ;
+    wready_v <= \wready_v$next ;
   always @(posedge full_clk)
-      awready_v <= \$next\awready_v ;
+    awready_v <= \awready_v$next ;
   always @(posedge full_clk)
-      rresp_v <= \$next\rresp_v ;
+    rresp_v <= \rresp_v$next ;
   always @(posedge full_clk)
-      rdata_v <= \$next\rdata_v ;
+    rdata_v <= \rdata_v$next ;
   always @(posedge full_clk)
-      arready_v <= \$next\arready_v ;
+    arready_v <= \arready_v$next ;
   always @(posedge full_clk)
-      rp_addr <= \$next\rp_addr ;
+    rp_addr <= \rp_addr$next ;
   always @(posedge full_clk)
-      addr_v <= \$next\addr_v ;
+    addr_v <= \addr_v$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge full_clk)
-      bvalid_v <= \$next\bvalid_v ;
+    bvalid_v <= \bvalid_v$next ;
   always @(posedge full_clk)
-      rvalid_v <= \$next\rvalid_v ;
+    rvalid_v <= \rvalid_v$next ;
   always @(posedge full_clk)
-      allowed_cycles <= \$next\allowed_cycles ;
+    allowed_cycles <= \allowed_cycles$next ;
   always @(posedge full_clk)
-      height_width <= \$next\height_width ;
+    height_width <= \height_width$next ;
   always @(posedge full_clk)
-      bresp_v <= \$next\bresp_v ;
+    bresp_v <= \bresp_v$next ;
   always @(posedge full_clk)
-      wp_en <= \$next\wp_en ;
+    wp_en <= \wp_en$next ;
   always @(posedge full_clk)
-      wp_data <= \$next\wp_data ;
+    wp_data <= \wp_data$next ;
   always @(posedge full_clk)
-      wp_addr <= \$next\wp_addr ;
+    wp_addr <= \wp_addr$next ;
   always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
-  always @* begin
-    \$next\wdata_v  = 32'd0;
-    \$next\wdata_v  = 32'd0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    wdata_v = 32'd0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$5 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wdata_v  = s_axi_wi__wdata;
+                wdata_v = s_axi_wi__wdata;
           endcase
     endcase
   end
   always @* begin
-    \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    rp_data64_in = rp_data64;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$19 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$9 , \$7  })
-                  2'bz1:
-                      casez (\$11 )
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$27 , \$25  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      (* src = "core_axi_lite.py:251" *)
+                      casez (\$29 )
+                        /* src = "core_axi_lite.py:251" */
                         1'h1:
                           begin
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [7:0] = wdata_v[7:0];
-                              1'hz:
-                                  \$next\rp_data64_in [7:0] = rp_data64[7:0];
+                                  rp_data64_in[7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[7:0] = rp_data64[7:0];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [15:8] = wdata_v[15:8];
-                              1'hz:
-                                  \$next\rp_data64_in [15:8] = rp_data64[15:8];
+                                  rp_data64_in[15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[15:8] = rp_data64[15:8];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [23:16] = wdata_v[23:16];
-                              1'hz:
-                                  \$next\rp_data64_in [23:16] = rp_data64[23:16];
+                                  rp_data64_in[23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[23:16] = rp_data64[23:16];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [31:24] = wdata_v[31:24];
-                              1'hz:
-                                  \$next\rp_data64_in [31:24] = rp_data64[31:24];
+                                  rp_data64_in[31:24] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[31:24] = rp_data64[31:24];
                             endcase
                           end
-                        1'hz:
+                        /* src = "core_axi_lite.py:260" */
+                        default:
                           begin
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$13 ;
-                              1'hz:
-                                  \$next\rp_data64_in [39:32] = rp_data64[39:32];
+                                  rp_data64_in[39:32] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[39:32] = rp_data64[39:32];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$15 ;
-                              1'hz:
-                                  \$next\rp_data64_in [47:40] = rp_data64[47:40];
+                                  rp_data64_in[47:40] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[47:40] = rp_data64[47:40];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$17 ;
-                              1'hz:
-                                  \$next\rp_data64_in [55:48] = rp_data64[55:48];
+                                  rp_data64_in[55:48] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[55:48] = rp_data64[55:48];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$19 ;
-                              1'hz:
-                                  \$next\rp_data64_in [63:56] = rp_data64[63:56];
+                                  rp_data64_in[63:56] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[63:56] = rp_data64[63:56];
                             endcase
                           end
                       endcase
@@ -1523,760 +2075,1296 @@ module core_axi_lite(rp_data, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__ar
     endcase
   end
   always @* begin
-    \$next\rvalid_v  = rvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \rvalid_v$next  = rvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\rvalid_v  = 1'h1;
+                \rvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bvalid_v  = bvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \bvalid_v$next  = bvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
+      4'h8:
+          /* empty */;
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\bvalid_v  = 1'h1;
+                \bvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
+          (* src = "core_axi_lite.py:300" *)
           casez ({ s_axi_wi__awvalid, s_axi_ri__arvalid })
-            2'bz1:
-                \$next\fsm_state  = 4'h1;
-            2'b1z:
-                \$next\fsm_state  = 4'h2;
+            /* src = "core_axi_lite.py:300" */
+            2'b?1:
+                \fsm_state$next  = 4'h1;
+            /* src = "core_axi_lite.py:302" */
+            2'b1?:
+                \fsm_state$next  = 4'h2;
           endcase
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\fsm_state  = 4'h3;
+          \fsm_state$next  = 4'h3;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\fsm_state  = 4'h4;
+          \fsm_state$next  = 4'h4;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
       4'h4:
-          \$next\fsm_state  = 4'h5;
+          \fsm_state$next  = 4'h5;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\fsm_state  = 4'h6;
+          \fsm_state$next  = 4'h6;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\fsm_state  = 4'h7;
+          \fsm_state$next  = 4'h7;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
       4'h7:
-          \$next\fsm_state  = 4'h8;
+          \fsm_state$next  = 4'h8;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$35 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\fsm_state  = 4'h9;
+                \fsm_state$next  = 4'h9;
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 4'h0;
+          \fsm_state$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\addr_v  = addr_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \addr_v$next  = addr_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\addr_v  = \$21 ;
+          \addr_v$next  = \$37 ;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\addr_v  = \$23 ;
+          \addr_v$next  = \$39 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\addr_v  = 32'd0;
+          \addr_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = rp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \rp_addr$next  = rp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\rp_addr  = \$25 [4:0];
+          \rp_addr$next  = \$42 [4:0];
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\rp_addr  = \$28 [4:0];
+          \rp_addr$next  = \$45 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rp_addr  = 5'h00;
+          \rp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\arready_v  = arready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \arready_v$next  = arready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\arready_v  = 1'h1;
+          \arready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdata_v  = rdata_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \rdata_v$next  = rdata_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$37 , \$35  })
-            2'bz1:
-                casez (\$39 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$53 , \$51  })
+            /* src = "core_axi_lite.py:327" */
+            2'b?1:
+                (* src = "core_axi_lite.py:242" *)
+                casez (\$55 )
+                  /* src = "core_axi_lite.py:242" */
                   1'h1:
-                      \$next\rdata_v  = rp_data64[31:0];
-                  1'hz:
-                      \$next\rdata_v  = rp_data64[63:32];
+                      \rdata_v$next  = rp_data64[31:0];
+                  /* src = "core_axi_lite.py:245" */
+                  default:
+                      \rdata_v$next  = rp_data64[63:32];
                 endcase
-            2'b1z:
-                casez (\$41 )
+            /* src = "core_axi_lite.py:330" */
+            2'b1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$57 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rdata_v  = height_width;
-                  1'hz:
-                      \$next\rdata_v  = \$43 ;
+                      \rdata_v$next  = height_width;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rdata_v$next  = \$59 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rdata_v  = 32'd0;
+          \rdata_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rresp_v  = rresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \rresp_v$next  = rresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$51 , \$49  })
-            2'bz1:
-                \$next\rresp_v  = 2'h0;
-            2'b1z:
-                casez (\$53 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$67 , \$65  })
+            /* src = "core_axi_lite.py:327" */
+            2'b?1:
+                \rresp_v$next  = 2'h0;
+            /* src = "core_axi_lite.py:330" */
+            2'b1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$69 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rresp_v  = 2'h0;
-                  1'hz:
-                      \$next\rresp_v  = 2'h0;
+                      \rresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rresp_v$next  = 2'h0;
                 endcase
-            2'hz:
-                \$next\rresp_v  = 2'h3;
+            /* src = "core_axi_lite.py:337" */
+            default:
+                \rresp_v$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rresp_v  = 2'h0;
+          \rresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\awready_v  = awready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \awready_v$next  = awready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\awready_v  = 1'h1;
+          \awready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wstrb_v  = 4'h0;
-    \$next\wstrb_v  = 4'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    wstrb_v = 4'h0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$11 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wstrb_v  = s_axi_wi__wstrb;
+                wstrb_v = s_axi_wi__wstrb;
           endcase
     endcase
   end
   always @* begin
-    \$next\wready_v  = wready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \wready_v$next  = wready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          \$next\wready_v  = 1'h1;
+        begin
+          \wready_v$next  = 1'h1;
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$75 )
+            /* src = "core_axi_lite.py:366" */
+            1'h1:
+                \wready_v$next  = 1'h0;
+          endcase
+        end
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wp_addr  = wp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \wp_addr$next  = wp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$81 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$61 , \$59  })
-                  2'bz1:
-                      \$next\wp_addr  = \$63 [4:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$89 , \$87  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_addr$next  = \$92 [4:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_addr  = 5'h00;
+          \wp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\wp_data  = wp_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \wp_data$next  = wp_data;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$98 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$72 , \$70  })
-                  2'bz1:
-                      \$next\wp_data  = rp_data64_in[32:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$106 , \$104  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_data$next  = rp_data64_in[32:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_data  = 33'h000000000;
+          \wp_data$next  = 33'h000000000;
     endcase
   end
   always @* begin
-    \$next\wp_en  = wp_en;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \wp_en$next  = wp_en;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$112 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$80 , \$78  })
-                  2'bz1:
-                      \$next\wp_en  = 1'h1;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$120 , \$118  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_en$next  = 1'h1;
                 endcase
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bresp_v  = bresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \bresp_v$next  = bresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$126 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$88 , \$86  })
-                  2'bz1:
-                      \$next\bresp_v  = 2'h0;
-                  2'b1z:
-                      \$next\bresp_v  = 2'h0;
-                  2'hz:
-                      \$next\bresp_v  = 2'h3;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$134 , \$132  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:383" */
+                  default:
+                      \bresp_v$next  = 2'h3;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bresp_v  = 2'h0;
+          \bresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\height_width  = height_width;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \height_width$next  = height_width;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$140 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$96 , \$94  })
-                  2'bz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$148 , \$146  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
                       /* empty */;
-                  2'b1z:
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$98 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$150 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [7:0] = wdata_v[7:0];
+                                  \height_width$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$100 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$152 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [15:8] = wdata_v[15:8];
+                                  \height_width$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$102 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$154 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [23:16] = wdata_v[23:16];
+                                  \height_width$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[3])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$104 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$156 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [31:24] = wdata_v[31:24];
+                                  \height_width$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_width  = 32'd0;
+          \height_width$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles  = allowed_cycles;
+    if (\$auto$verilog_backend.cc:2184:dump_module$82 ) begin end
+    \allowed_cycles$next  = allowed_cycles;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$162 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$112 , \$110  })
-                  2'bz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$170 , \$168  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
                       /* empty */;
-                  2'b1z:
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$114 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$172 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$116 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$174 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$118 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$176 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles  = 24'h000000;
-    endcase
-  end
-  always @* begin
-    \$next\s_axi_ro__arready  = 1'h0;
-    \$next\s_axi_ro__arready  = arready_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rvalid  = 1'h0;
-    \$next\s_axi_ro__rvalid  = rvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__awready  = 1'h0;
-    \$next\s_axi_wo__awready  = awready_v;
-  end
-  always @* begin
-    \$next\ssss_enable  = 1'h0;
-    \$next\ssss_enable  = addr_v[10];
-  end
-  always @* begin
-    \$next\s_axi_wo__wready  = 1'h0;
-    \$next\s_axi_wo__wready  = wready_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__bvalid  = 1'h0;
-    \$next\s_axi_wo__bvalid  = bvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rdata  = 32'd0;
-    \$next\s_axi_ro__rdata  = rdata_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rresp  = 2'h0;
-    \$next\s_axi_ro__rresp  = rresp_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__bresp  = 2'h0;
-    \$next\s_axi_wo__bresp  = bresp_v;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_width[15:0];
-  end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = height_width[31:16];
-  end
-  always @* begin
-    \$next\hw_enable  = 1'h0;
-    \$next\hw_enable  = addr_v[11];
-  end
-  always @* begin
-    \$next\debug_enable  = 1'h0;
-    \$next\debug_enable  = addr_v[12];
-  end
-  always @* begin
-    \$next\ssss_index  = 6'h00;
-    \$next\ssss_index  = addr_v[5:0];
-  end
-  always @* begin
-    \$next\debug_index  = 3'h0;
-    \$next\debug_index  = addr_v[2:0];
-  end
-  always @* begin
-    \$next\hw_index  = 1'h0;
-    \$next\hw_index  = addr_v[0];
-  end
-  always @* begin
-    \$next\rp_data64  = 64'h0000000000000000;
-    \$next\rp_data64  = \$1 ;
-  end
-  assign \$25  = \$26 ;
-  assign \$28  = \$29 ;
-  assign \$63  = \$64 ;
-  assign width = \$next\width ;
-  assign height = \$next\height ;
-  assign s_axi_wo__bresp = \$next\s_axi_wo__bresp ;
-  assign s_axi_ro__rresp = \$next\s_axi_ro__rresp ;
-  assign s_axi_ro__rdata = \$next\s_axi_ro__rdata ;
-  assign s_axi_wo__bvalid = \$next\s_axi_wo__bvalid ;
-  assign s_axi_wo__wready = \$next\s_axi_wo__wready ;
-  assign s_axi_wo__awready = \$next\s_axi_wo__awready ;
-  assign s_axi_ro__rvalid = \$next\s_axi_ro__rvalid ;
-  assign s_axi_ro__arready = \$next\s_axi_ro__arready ;
-  assign rp_data64_in = \$next\rp_data64_in ;
-  assign rp_data64 = \$next\rp_data64 ;
-  assign hw_index = \$next\hw_index ;
-  assign debug_index = \$next\debug_index ;
-  assign ssss_index = \$next\ssss_index ;
-  assign debug_enable = \$next\debug_enable ;
-  assign hw_enable = \$next\hw_enable ;
-  assign ssss_enable = \$next\ssss_enable ;
-  assign wstrb_v = \$next\wstrb_v ;
-  assign wdata_v = \$next\wdata_v ;
-  assign clk = \$next\clk ;
+          \allowed_cycles$next  = 24'h000000;
+    endcase
+  end
+  assign \$41  = \$42 ;
+  assign \$44  = \$45 ;
+  assign \$91  = \$92 ;
+  assign width = height_width[31:16];
+  assign height = height_width[15:0];
+  assign s_axi_wo__bresp = bresp_v;
+  assign s_axi_ro__rresp = rresp_v;
+  assign s_axi_ro__rdata = rdata_v;
+  assign s_axi_wo__bvalid = bvalid_v;
+  assign s_axi_wo__wready = wready_v;
+  assign s_axi_wo__awready = awready_v;
+  assign s_axi_ro__rvalid = rvalid_v;
+  assign s_axi_ro__arready = arready_v;
+  assign rp_data64 = \$13 ;
+  assign hw_index = addr_v[0];
+  assign debug_index = addr_v[2:0];
+  assign ssss_index = addr_v[5:0];
+  assign debug_enable = addr_v[12];
+  assign hw_enable = addr_v[11];
+  assign ssss_enable = addr_v[10];
+  assign clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , end_in, rst, clk, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, valid_in);
-  wire [13:0] \$10 ;
-  wire [12:0] \$11 ;
-  wire [13:0] \$13 ;
+(* \nmigen.hierarchy  = "top.difference" *)
+module difference(\pixel_in$1 , predic_in, \predic_in$2 , valid_in, end_in, val_out, \val_out$3 , \val_out$4 , \val_out$5 , valid_out, end_out, rst, clk, pixel_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$83  = 0;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$12 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$14 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$15 ;
-  wire [12:0] \$16 ;
-  wire [13:0] \$18 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$6 ;
-  wire [12:0] \$8 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$3 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$4 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$5 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "difference.py:98" *)
+  wire [13:0] \$8 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$9 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$11 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$2 ;
+  wire [11:0] \predic_in$2 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:61" *)
   output [12:0] \val_out$3 ;
   reg [12:0] \val_out$3  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$3$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$4 ;
   reg [12:0] \val_out$4  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$4$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$5 ;
   reg [12:0] \val_out$5  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$5$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$11  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$13  = \$11  - (* src = "difference.py:90" *) 1'h1;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$18  = \$16  - (* src = "difference.py:90" *) 1'h1;
-  assign \$6  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$8  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$9  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$12  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$2 ;
+  assign \$15  = \diff$11  - (* src = "difference.py:98" *) 1'h1;
+  assign \$6  = pixel_in - (* src = "difference.py:91" *) predic_in;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$5  <= \$next\val_out$5 ;
+    \val_out$5  <= \val_out$5$next ;
   always @(posedge clk)
-      \val_out$4  <= \$next\val_out$4 ;
+    \val_out$3  <= \val_out$3$next ;
   always @(posedge clk)
-      \val_out$3  <= \$next\val_out$3 ;
+    \val_out$4  <= \val_out$4$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$6 ;
+          diff = \$6 ;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \val_out$next  = diff;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$3  = \val_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    \val_out$4$next  = \val_out$4 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$3  = \$8 ;
+          \val_out$4$next  = \$9 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$3  = 13'h0000;
+          \val_out$4$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    \diff$11  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$11  = \$12 ;
     endcase
   end
   always @* begin
-    \$next\val_out$4  = \val_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    \val_out$3$next  = \val_out$3 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$4  = \$10 [12:0];
+          \val_out$3$next  = \diff$11 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$4  = 13'h0000;
+          \val_out$3$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$5  = \val_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    \val_out$5$next  = \val_out$5 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$5  = \$15 [12:0];
+          \val_out$5$next  = \$15 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$5  = 13'h0000;
+          \val_out$5$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$83 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$10  = \$13 ;
-  assign \$15  = \$18 ;
+  assign \$8  = \$9 ;
+  assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, mem_r_addr, mem_w_en, mem_w_addr, mem_w_data, enc_out, enc_ctr, \enc_out$3 , \enc_ctr$4 , valid_out, end_out, mem_r_data, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$4 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$3 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$15 ;
+(* \nmigen.hierarchy  = "top.encode" *)
+module encode(\val_in$1 , ssss, \ssss$2 , valid_in, end_in, mem_r_data, mem_r_addr, mem_w_addr, mem_w_data, mem_w_en, enc_out, \enc_out$3 , enc_ctr, \enc_ctr$4 , valid_out, end_out, rst, clk, val_in);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$6 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$24 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$27 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$18 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$16 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$7 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$17 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$8 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$14 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$5 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire \U$$1_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$21 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$4 ;
+  wire [4:0] \enc_ctr$4 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$20 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$3 ;
+  wire [27:0] \enc_out$3 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$15 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$10 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:201" *)
   input [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$24 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$27 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  wire [3:0] mem_r_addr;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$6 ;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$8 ;
+  (* src = "encode.py:201" *)
   output [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$25 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$28 ;
-  (* src = "nmigen/hdl/mem.py:146" *)
+  wire [32:0] mem_r_data;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$7 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$9 ;
+  (* src = "encode.py:200" *)
   input [3:0] mem_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
+  wire [3:0] mem_w_addr;
+  (* src = "encode.py:200" *)
   input [32:0] mem_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
+  wire [32:0] mem_w_data;
+  (* src = "encode.py:200" *)
   input mem_w_en;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$19 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$18 ;
+  wire mem_w_en;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$7 ;
+  wire [4:0] \ssss$2 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$17 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$8 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$14 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$5 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$9 ;
-  \anonymous$2  \$13  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$12 ),
-    .enc_out(\enc_out$11 ),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$10 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$7 ),
-    .val_in(\val_in$8 ),
-    .valid_in(\valid_in$5 ),
-    .valid_out(\valid_out$9 )
-  );
-  \anonymous$3  \$22  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$21 ),
-    .enc_out(\enc_out$20 ),
-    .end_in(\end_in$15 ),
-    .rp_addr(\rp_addr$19 ),
-    .rp_data(\rp_data$18 ),
-    .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$17 ),
-    .valid_in(\valid_in$14 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -2293,636 +3381,514 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , rst, clk, mem_r_addr
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
+  always @(posedge clk) begin
+    if (mem_w_en)
+      mem[mem_w_addr] <= mem_w_data;
+  end
   reg [3:0] _0_;
   reg [3:0] _1_;
   reg [3:0] _2_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$27 ;
-    _1_ <= \$next\mem_r_addr$24 ;
+    _0_ <= \mem_r_addr$6 ;
+    _1_ <= \mem_r_addr$8 ;
     _2_ <= mem_r_addr;
-    if (mem_w_en) mem[mem_w_addr] <= mem_w_data;
   end
-  assign \mem_r_data$28  = mem[_0_];
-  assign \mem_r_data$25  = mem[_1_];
+  assign \mem_r_data$7  = mem[_0_];
+  assign \mem_r_data$9  = mem[_1_];
   assign mem_r_data = mem[_2_];
-  always @* begin
-    \$next\val_in$8  = 12'h000;
-    \$next\val_in$8  = val_in;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$16  = 5'h00;
-    \$next\ssss$16  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$27  = 4'h0;
-    \$next\mem_r_addr$27  = \rp_addr$19 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$18  = 33'h000000000;
-    \$next\rp_data$18  = \mem_r_data$28 ;
-  end
-  always @* begin
-    \$next\enc_out$3  = 28'h0000000;
-    \$next\enc_out$3  = \enc_out$20 ;
-  end
-  always @* begin
-    \$next\enc_ctr$4  = 5'h00;
-    \$next\enc_ctr$4  = \enc_ctr$21 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$9 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$10 ;
-  end
-  always @* begin
-    \$next\valid_in$5  = 1'h0;
-    \$next\valid_in$5  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr$24  = 4'h0;
-    \$next\mem_r_addr$24  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = \mem_r_data$25 ;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$11 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$12 ;
-  end
-  always @* begin
-    \$next\val_in$17  = 12'h000;
-    \$next\val_in$17  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$15  = 1'h0;
-    \$next\end_in$15  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$4  = \$next\enc_ctr$4 ;
-  assign \enc_out$3  = \$next\enc_out$3 ;
-  assign \rp_data$18  = \$next\rp_data$18 ;
-  assign \mem_r_addr$27  = \$next\mem_r_addr$27 ;
-  assign \ssss$16  = \$next\ssss$16 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \end_in$15  = \$next\end_in$15 ;
-  assign \val_in$17  = \$next\val_in$17 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign \mem_r_addr$24  = \$next\mem_r_addr$24 ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \valid_in$5  = \$next\valid_in$5 ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign \val_in$8  = \$next\val_in$8 ;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$4  = \U$$1_enc_ctr ;
+  assign \enc_out$3  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$9 ;
+  assign \mem_r_addr$8  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$2 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = \mem_r_data$7 ;
+  assign \mem_r_addr$6  = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.force_end" *)
+module force_end(valid_in, fend, rst, clk, allowed_cycles);
+  reg \$auto$verilog_backend.cc:2184:dump_module$84  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$84 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$84 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$84 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* \nmigen.hierarchy  = "top.merge" *)
+module merge(\enc_in$1 , enc_in_ctr, \enc_in_ctr$2 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, rst, clk, enc_in);
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:112" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [5:0] \$next\enc_out_ctr ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$4 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$3 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
+  wire [4:0] \enc_in_ctr$2 ;
   (* src = "merge.py:112" *)
   output [55:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$6 ;
+  wire [55:0] enc_out;
   (* src = "merge.py:113" *)
   output [5:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$5 ;
+  wire [5:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$4 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$8 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$3 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$7 ;
-  \anonymous$4  \$9  (
+  wire valid_out;
+  \U$$0$3  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$6 ),
-    .enc_out_ctr(\enc_out_ctr$5 ),
-    .end_in(\end_in$4 ),
-    .end_out(\end_out$8 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$3 ),
-    .valid_out(\valid_out$7 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\valid_in$3  = 1'h0;
-    \$next\valid_in$3  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$4  = 1'h0;
-    \$next\end_in$4  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = \enc_out$6 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$5 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$7 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$8 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$4  = \$next\end_in$4 ;
-  assign \valid_in$3  = \$next\valid_in$3 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_out_ctr = \U$$0_enc_out_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$2 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , rst, clk, ssss, val_out, \ssss$3 , \val_out$4 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
+(* \nmigen.hierarchy  = "top.normalize" *)
+module normalize(\val_in$1 , vals_in_mns, \vals_in_mns$2 , valid_in, end_in, val_out, \val_out$3 , ssss, \ssss$4 , valid_out, end_out, rst, clk, val_in);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$6 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$3 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$12 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$5 ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
+  (* src = "normalize.py:128" *)
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$13 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$4 ;
-  (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$11 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire \U$$1_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$6 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$9 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$3 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$8 ;
+  output [4:0] \ssss$4 ;
+  wire [4:0] \ssss$4 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$12 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$13 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$4 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$7 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$11 ;
+  output [11:0] \val_out$3 ;
+  wire [11:0] \val_out$3 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$2 ;
-  anonymous \$10  (
+  wire [12:0] \vals_in_mns$2 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$6 ),
-    .end_out(\end_out$9 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$8 ),
-    .val_in(\val_in$5 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$7 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$17  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$14 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$12 ),
-    .val_in_mns(\val_in_mns$13 ),
-    .val_out(\val_out$15 ),
-    .valid(\valid$11 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  always @* begin
-    \$next\val_in$5  = 13'h0000;
-    \$next\val_in$5  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out$4  = 12'h000;
-    \$next\val_out$4  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$9 ;
-  end
-  always @* begin
-    \$next\end_in$6  = 1'h0;
-    \$next\end_in$6  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$8 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$7 ;
-  end
-  always @* begin
-    \$next\val_in$12  = 13'h0000;
-    \$next\val_in$12  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$11  = 1'h0;
-    \$next\valid$11  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$13  = 13'h0000;
-    \$next\val_in_mns$13  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$4  = \$next\val_out$4 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \val_in_mns$13  = \$next\val_in_mns$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \valid$11  = \$next\valid$11 ;
-  assign \val_in$12  = \$next\val_in$12 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$6  = \$next\end_in$6 ;
-  assign valid = \$next\valid ;
-  assign \val_in$5  = \$next\val_in$5 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$3  = \U$$1_val_out ;
+  assign \ssss$4  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$2 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.predictor" *)
+module predictor(\pixel_in$1 , new_row, end_in, valid_in, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, rst, clk, pixel_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$85  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$10 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$12 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$14 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$21 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$22 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$27 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$28 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$4 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$6 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$8 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$24 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$25 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$26 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$30 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$31 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$32 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out$3 ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$24  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$24$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$25  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$25$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$26  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$26$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg buff_ctr = 1'h0;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$30  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$30$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$31  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$31$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$32  = 12'h800;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$32$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg lbuff_ctr = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] \pixel_in$1 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] \pixel_out$2 ;
   reg [11:0] \pixel_out$2  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$2$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] \predic_out$3 ;
   reg [11:0] \predic_out$3  = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$10  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$12  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$14  = \$10  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$12 ;
@@ -2934,371 +3900,508 @@ module predictor(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \
   assign \$6  = new_row == (* src = "predictor_p1_c4_pix1_2.py:115" *) 1'h1;
   assign \$8  = \$4  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$6 ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \predic_out$3  <= \$next\predic_out$3 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$32  <= \$next\lbuff$32 ;
+    \lbuff$32  <= \lbuff$32$next ;
   always @(posedge clk)
-      \lbuff$31  <= \$next\lbuff$31 ;
+    \lbuff$31  <= \lbuff$31$next ;
   always @(posedge clk)
-      \lbuff$30  <= \$next\lbuff$30 ;
+    \lbuff$30  <= \lbuff$30$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$26  <= \$next\buff$26 ;
+    \buff$26  <= \buff$26$next ;
   always @(posedge clk)
-      \buff$25  <= \$next\buff$25 ;
+    \buff$25  <= \buff$25$next ;
   always @(posedge clk)
-      \buff$24  <= \$next\buff$24 ;
+    \buff$24  <= \buff$24$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      \pixel_out$2  <= \$next\pixel_out$2 ;
+    \pixel_out$2  <= \pixel_out$2$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$14 , \$8  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
-    endcase
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$16 ;
-  end
-  always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$27 [0];
+                \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 1'h0;
+          \lbuff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$30  = \lbuff$30 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \lbuff$30$next  = \lbuff$30 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff$30  = \pixel_in$1 ;
+                      \lbuff$30$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$30  = 12'h800;
+          \lbuff$30$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$31  = \lbuff$31 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \lbuff$31$next  = \lbuff$31 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$31  = pixel_in;
+                      \lbuff$31$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$31  = 12'h800;
+          \lbuff$31$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$32  = \lbuff$32 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \lbuff$32$next  = \lbuff$32 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$32  = \pixel_in$1 ;
+                      \lbuff$32$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$32  = 12'h800;
+          \lbuff$32$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out  = \lbuff$31 ;
+                      \predic_out$next  = \lbuff$31 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out  = \buff$25 ;
+                      \predic_out$next  = \buff$25 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$3  = \predic_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out$3  = \lbuff$30 ;
+                      \predic_out$3$next  = \lbuff$30 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out$3  = \lbuff$32 ;
+                      \predic_out$3$next  = \lbuff$32 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out$3  = \buff$24 ;
+                      \predic_out$3$next  = \buff$24 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out$3  = \buff$26 ;
+                      \predic_out$3$next  = \buff$26 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$3  = 12'h000;
+          \predic_out$3$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$18 [31:0];
+          \debug_counter$next  = \$19 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$2  = \pixel_out$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \pixel_out$2$next  = \pixel_out$2 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out$2  = \pixel_in$1 ;
+          \pixel_out$2$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$2  = 12'h000;
+          \pixel_out$2$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$21 [0];
+          \buff_ctr$next  = \$22 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 1'h0;
+          \buff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$24  = \buff$24 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \buff$24$next  = \buff$24 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff$24  = \pixel_in$1 ;
+                \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$24  = 12'h800;
+          \buff$24$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$25  = \buff$25 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \buff$25$next  = \buff$25 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$25  = pixel_in;
+                \buff$25$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$25  = 12'h800;
+          \buff$25$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$26  = \buff$26 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$85 ) begin end
+    \buff$26$next  = \buff$26 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$26  = \pixel_in$1 ;
+                \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$26  = 12'h800;
+          \buff$26$next  = 12'h800;
     endcase
   end
   assign \$18  = \$19 ;
   assign \$21  = \$22 ;
   assign \$27  = \$28 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$16 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.signals" *)
+module signals(width, new_input, new_row, end_of_frame, rst, clk, height);
+  reg \$auto$verilog_backend.cc:2184:dump_module$86  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -3313,124 +4416,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 2'h2;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$86 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$86 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$86 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$86 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$86 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -3439,98 +4611,11 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, enc_out, enc_out_ctr, valid_out, end_out, fend_out, valid_in);
-  (* src = "core_axi_lite.py:101" *)
-  reg [32:0] \$next\core_axi_lite_rp_data ;
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$5 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$6 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\encode_mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [3:0] \$next\encode_mem_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [32:0] \$next\encode_mem_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\encode_mem_w_en ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$15 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$14 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$18 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$19 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$10 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$11 ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(\pixel_in$1 , enc_out, enc_out_ctr, valid_in, valid_out, end_out, fend_out, s_axi_aclk, s_axi_areset_n, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_ri__araddr, s_axi_ri__arprot, s_axi_ri__arvalid, s_axi_ri__rready, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid
+, s_axi_wi__awaddr, s_axi_wi__awprot, s_axi_wi__awvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__wvalid, s_axi_wi__bready, full_clk, full_rst, rst, pixel_in);
   (* src = "core_axi_lite.py:84" *)
   wire [23:0] core_axi_lite_allowed_cycles;
   (* src = "core_axi_lite.py:80" *)
@@ -3571,10 +4656,12 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [55:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [55:0] enc_out;
+  wire [55:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [5:0] enc_out_ctr;
+  wire [5:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
@@ -3587,15 +4674,15 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   wire encode_end_in;
   (* src = "encode.py:192" *)
   wire encode_end_out;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  (* src = "encode.py:201" *)
   wire [3:0] encode_mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:201" *)
   wire [32:0] encode_mem_r_data;
-  (* src = "nmigen/hdl/mem.py:146" *)
+  (* src = "encode.py:200" *)
   wire [3:0] encode_mem_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
+  (* src = "encode.py:200" *)
   wire [32:0] encode_mem_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
+  (* src = "encode.py:200" *)
   wire encode_mem_w_en;
   (* src = "encode.py:179" *)
   wire [4:0] encode_ssss;
@@ -3609,10 +4696,12 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   wire encode_valid_in;
   (* src = "encode.py:188" *)
   wire encode_valid_out;
-  (* src = "integration_1.py:34" *)
-  output end_out;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -3621,8 +4710,10 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
@@ -3650,7 +4741,7 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$12 ;
+  wire [4:0] \normalize_ssss$13 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
@@ -3658,7 +4749,7 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$13 ;
+  wire [11:0] \normalize_val_out$12 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -3667,11 +4758,13 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$11 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "nmigen/hdl/mem.py:160" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "clk_domains.py:5" *)
   wire predictor_clk;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
@@ -3697,24 +4790,70 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   wire predictor_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire rst;
+  (* src = "core_axi_lite.py:70" *)
+  input s_axi_aclk;
+  wire s_axi_aclk;
+  (* src = "core_axi_lite.py:71" *)
+  input s_axi_areset_n;
+  wire s_axi_areset_n;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
+  input [2:0] s_axi_ri__arprot;
+  wire [2:0] s_axi_ri__arprot;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__arready;
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
+  output [31:0] s_axi_ro__rdata;
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
+  output [1:0] s_axi_ro__rresp;
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__rvalid;
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
+  input [2:0] s_axi_wi__awprot;
+  wire [2:0] s_axi_wi__awprot;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__awready;
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
+  output [1:0] s_axi_wo__bresp;
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__bvalid;
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "signals.py:45" *)
   wire signals_end_of_frame;
   (* src = "signals.py:41" *)
@@ -3725,10 +4864,12 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   core_axi_lite core_axi_lite (
     .allowed_cycles(core_axi_lite_allowed_cycles),
     .clk(predictor_clk),
@@ -3741,12 +4882,20 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
+    .s_axi_ro__arready(s_axi_ro__arready),
+    .s_axi_ro__rdata(s_axi_ro__rdata),
+    .s_axi_ro__rresp(s_axi_ro__rresp),
+    .s_axi_ro__rvalid(s_axi_ro__rvalid),
     .s_axi_wi__awaddr(s_axi_wi__awaddr),
     .s_axi_wi__awvalid(s_axi_wi__awvalid),
     .s_axi_wi__bready(s_axi_wi__bready),
     .s_axi_wi__wdata(s_axi_wi__wdata),
     .s_axi_wi__wstrb(s_axi_wi__wstrb),
     .s_axi_wi__wvalid(s_axi_wi__wvalid),
+    .s_axi_wo__awready(s_axi_wo__awready),
+    .s_axi_wo__bresp(s_axi_wo__bresp),
+    .s_axi_wo__bvalid(s_axi_wo__bvalid),
+    .s_axi_wo__wready(s_axi_wo__wready),
     .width(core_axi_lite_width),
     .wp_addr(core_axi_lite_wp_addr),
     .wp_data(core_axi_lite_wp_data),
@@ -3816,11 +4965,11 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
     .end_out(normalize_end_out),
     .rst(rst),
     .ssss(normalize_ssss),
-    .\ssss$3 (\normalize_ssss$12 ),
+    .\ssss$4 (\normalize_ssss$13 ),
     .val_in(normalize_val_in),
     .\val_in$1 (\normalize_val_in$10 ),
     .val_out(normalize_val_out),
-    .\val_out$4 (\normalize_val_out$13 ),
+    .\val_out$3 (\normalize_val_out$12 ),
     .valid_in(normalize_valid_in),
     .valid_out(normalize_valid_out),
     .vals_in_mns(normalize_vals_in_mns),
@@ -3850,225 +4999,49 @@ module top(pixel_in, \pixel_in$1 , rst, full_clk, s_axi_ri__arvalid, s_axi_wi__a
     .rst(rst),
     .width(signals_width)
   );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = core_axi_lite_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = core_axi_lite_width;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$5  = 12'h000;
-    \$next\difference_pixel_in$5  = \predictor_pixel_out$3 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$6  = 12'h000;
-    \$next\difference_predic_in$6  = \predictor_predic_out$4 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$10  = 13'h0000;
-    \$next\normalize_val_in$10  = \difference_val_out$7 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$8 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = core_axi_lite_allowed_cycles;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$11  = 13'h0000;
-    \$next\normalize_vals_in_mns$11  = \difference_val_out$9 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$14  = 12'h000;
-    \$next\encode_val_in$14  = \normalize_val_out$13 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$15  = 5'h00;
-    \$next\encode_ssss$15  = \normalize_ssss$12 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\core_axi_lite_rp_data  = 33'h000000000;
-    \$next\core_axi_lite_rp_data  = encode_mem_r_data;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\encode_mem_r_addr  = 4'h0;
-    \$next\encode_mem_r_addr  = core_axi_lite_rp_addr[3:0];
-  end
-  always @* begin
-    \$next\encode_mem_w_addr  = 4'h0;
-    \$next\encode_mem_w_addr  = core_axi_lite_wp_addr[3:0];
-  end
-  always @* begin
-    \$next\encode_mem_w_data  = 33'h000000000;
-    \$next\encode_mem_w_data  = core_axi_lite_wp_data;
-  end
-  always @* begin
-    \$next\encode_mem_w_en  = 1'h0;
-    \$next\encode_mem_w_en  = core_axi_lite_wp_en;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\merge_enc_in$18  = 28'h0000000;
-    \$next\merge_enc_in$18  = \encode_enc_out$16 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$19  = 5'h00;
-    \$next\merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\enc_out  = 56'h00000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$2  = 12'h000;
-    \$next\predictor_pixel_in$2  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = signals_end_of_frame;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$19  = \$next\merge_enc_in_ctr$19 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$18  = \$next\merge_enc_in$18 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_mem_w_en = \$next\encode_mem_w_en ;
-  assign encode_mem_w_data = \$next\encode_mem_w_data ;
-  assign encode_mem_w_addr = \$next\encode_mem_w_addr ;
-  assign encode_mem_r_addr = \$next\encode_mem_r_addr ;
-  assign core_axi_lite_rp_data = \$next\core_axi_lite_rp_data ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$15  = \$next\encode_ssss$15 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$14  = \$next\encode_val_in$14 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$11  = \$next\normalize_vals_in_mns$11 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$10  = \$next\normalize_val_in$10 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$6  = \$next\difference_predic_in$6 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$5  = \$next\difference_pixel_in$5 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$2  = \$next\predictor_pixel_in$2 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$19  = \encode_enc_ctr$17 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$18  = \encode_enc_out$16 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_mem_w_en = core_axi_lite_wp_en;
+  assign encode_mem_w_data = core_axi_lite_wp_data;
+  assign encode_mem_w_addr = core_axi_lite_wp_addr[3:0];
+  assign encode_mem_r_addr = core_axi_lite_rp_addr[3:0];
+  assign core_axi_lite_rp_data = encode_mem_r_data;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$15  = \normalize_ssss$13 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$14  = \normalize_val_out$12 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$11  = \difference_val_out$9 ;
+  assign normalize_vals_in_mns = \difference_val_out$8 ;
+  assign \normalize_val_in$10  = \difference_val_out$7 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$6  = \predictor_predic_out$4 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$5  = \predictor_pixel_out$3 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = signals_end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$2  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = core_axi_lite_allowed_cycles;
+  assign signals_width = core_axi_lite_width;
+  assign signals_height = core_axi_lite_height;
 endmodule
 
diff --git a/verilog_src/integration_2.v b/verilog_src/integration_2.v
index 317427a..b877f33 100644
--- a/verilog_src/integration_2.v
+++ b/verilog_src/integration_2.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.integration_1.normalize.U$$0" *)
+module \U$$0 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$126  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$126 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$126 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$126 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$126 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.integration_1.encode.U$$0" *)
+module \U$$0$1 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$127  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$127 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_1.merge.U$$0" *)
+module \U$$0$5 (clk, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$128  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$128 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$128 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$128 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$128 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_1.normalize.U$$1" *)
+module \U$$1 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$129  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,197 +947,292 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -660,190 +1249,435 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.merge.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$10 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [6:0] \$1 ;
-  wire [118:0] \$3 ;
-  wire [118:0] \$4 ;
-  wire [118:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.integration_1.encode.U$$1" *)
+module \U$$1$2 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$130  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "merge.py:43" *)
-  input [55:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [55:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [5:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [5:0] enc_in_ctr2;
-  (* init = 112'h0000000000000000000000000000 *)
-  (* src = "merge.py:49" *)
-  output [111:0] enc_out;
-  reg [111:0] enc_out = 112'h0000000000000000000000000000;
-  (* init = 7'h00 *)
-  (* src = "merge.py:50" *)
-  output [6:0] enc_out_ctr;
-  reg [6:0] enc_out_ctr = 7'h00;
-  (* src = "merge.py:57" *)
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_1.merge.U$$1" *)
+module \U$$1$6 (clk, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$131  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:53" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "merge.py:54" *)
-  output valid_out;
   reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
   assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
   assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
   assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
+    enc_out_ctr <= \enc_out_ctr$next ;
   always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$131 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out_ctr  = \$1 ;
+          \enc_out_ctr$next  = \$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 7'h00;
+          \enc_out_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$131 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out  = \$3 [111:0];
+          \enc_out$next  = \$6 [55:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 112'h0000000000000000000000000000;
+          \enc_out$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$131 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$131 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$3  = \$6 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.integration_1.normalize.U$$2" *)
+module \U$$2 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$132  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -881,197 +1715,292 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -1088,113 +2017,459 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
-  wire \$1 ;
-  wire [13:0] \$11 ;
-  wire [13:0] \$12 ;
-  wire [13:0] \$14 ;
-  wire [13:0] \$15 ;
-  wire [13:0] \$17 ;
-  wire [13:0] \$18 ;
-  wire \$20 ;
-  wire \$22 ;
-  wire [13:0] \$24 ;
-  wire [13:0] \$25 ;
-  wire [13:0] \$27 ;
-  wire [13:0] \$28 ;
-  wire \$3 ;
-  wire [13:0] \$30 ;
-  wire [13:0] \$31 ;
-  wire \$33 ;
-  wire \$35 ;
-  wire \$37 ;
-  wire [13:0] \$39 ;
-  wire [13:0] \$40 ;
-  wire [13:0] \$42 ;
-  wire [13:0] \$43 ;
-  wire [13:0] \$45 ;
-  wire [13:0] \$46 ;
-  wire \$48 ;
-  wire \$5 ;
-  wire \$50 ;
-  wire [13:0] \$52 ;
-  wire [13:0] \$53 ;
-  wire [13:0] \$55 ;
-  wire [13:0] \$56 ;
-  wire [13:0] \$58 ;
-  wire [13:0] \$59 ;
-  wire \$61 ;
-  wire \$63 ;
-  wire \$65 ;
-  wire \$67 ;
-  wire \$69 ;
-  wire \$7 ;
-  wire \$71 ;
-  wire \$73 ;
-  wire \$75 ;
-  wire \$77 ;
-  wire \$79 ;
-  wire \$81 ;
-  wire \$83 ;
-  wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.integration_1.encode.U$$2" *)
+module \U$$2$3 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$133  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "normalize.py:132" *)
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:133" *)
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
-  (* src = "normalize.py:126" *)
-  output [4:0] ssss;
-  reg [4:0] ssss = 5'h00;
-  (* src = "normalize.py:119" *)
-  input [12:0] val_in;
-  (* src = "normalize.py:121" *)
-  input [12:0] val_in_mns;
-  (* init = 12'h000 *)
-  (* src = "normalize.py:124" *)
-  output [11:0] val_out;
-  reg [11:0] val_out = 12'h000;
-  (* src = "normalize.py:128" *)
-  input valid;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:129" *)
-  reg valid_o = 1'h0;
-  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
-  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
-  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
-  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
-  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
-  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
-  assign \$22  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
-  assign \$25  = val_in + (* src = "normalize.py:67" *) 4'hf;
-  assign \$28  = val_in + (* src = "normalize.py:72" *) 5'h1f;
-  assign \$31  = val_in + (* src = "normalize.py:58" *) 6'h3f;
-  assign \$33  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
-  assign \$35  = val_in_mns[12:8] == (* src = "normalize.py:81" *) 5'h1f;
-  assign \$37  = val_in_mns[12:7] == (* src = "normalize.py:65" *) 6'h3f;
-  assign \$3  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
-  assign \$40  = val_in + (* src = "normalize.py:67" *) 7'h7f;
-  assign \$43  = val_in + (* src = "normalize.py:72" *) 8'hff;
-  assign \$46  = val_in + (* src = "normalize.py:58" *) 9'h1ff;
-  assign \$48  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
-  assign \$50  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
-  assign \$53  = val_in + (* src = "normalize.py:67" *) 10'h3ff;
-  assign \$56  = val_in + (* src = "normalize.py:72" *) 11'h7ff;
-  assign \$5  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_1.merge.U$$2" *)
+module \U$$2$7 (clk, enc_in1, enc_in_ctr1, enc_in2, enc_in_ctr2, valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$134  = 0;
+  (* src = "merge.py:74" *)
+  wire [6:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [55:0] enc_in1;
+  wire [55:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [55:0] enc_in2;
+  wire [55:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [5:0] enc_in_ctr1;
+  wire [5:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [5:0] enc_in_ctr2;
+  wire [5:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [111:0] enc_out;
+  reg [111:0] enc_out = 112'h0000000000000000000000000000;
+  (* src = "merge.py:49" *)
+  reg [111:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [6:0] enc_out_ctr;
+  reg [6:0] enc_out_ctr = 7'h00;
+  (* src = "merge.py:50" *)
+  reg [6:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 7'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [111:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 112'h0000000000000000000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_1.normalize.U$$3" *)
+module \U$$3 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$135  = 0;
+  (* src = "normalize.py:156" *)
+  wire \$1 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
+  wire \$20 ;
+  (* src = "normalize.py:65" *)
+  wire \$22 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
+  wire \$3 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
+  wire \$33 ;
+  (* src = "normalize.py:81" *)
+  wire \$35 ;
+  (* src = "normalize.py:65" *)
+  wire \$37 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
+  wire \$48 ;
+  (* src = "normalize.py:81" *)
+  wire \$5 ;
+  (* src = "normalize.py:65" *)
+  wire \$50 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
+  wire \$61 ;
+  (* src = "normalize.py:81" *)
+  wire \$63 ;
+  (* src = "normalize.py:81" *)
+  wire \$65 ;
+  (* src = "normalize.py:81" *)
+  wire \$67 ;
+  (* src = "normalize.py:65" *)
+  wire \$69 ;
+  (* src = "normalize.py:81" *)
+  wire \$7 ;
+  (* src = "normalize.py:81" *)
+  wire \$71 ;
+  (* src = "normalize.py:65" *)
+  wire \$73 ;
+  (* src = "normalize.py:81" *)
+  wire \$75 ;
+  (* src = "normalize.py:81" *)
+  wire \$77 ;
+  (* src = "normalize.py:65" *)
+  wire \$79 ;
+  (* src = "normalize.py:81" *)
+  wire \$81 ;
+  (* src = "normalize.py:65" *)
+  wire \$83 ;
+  (* src = "normalize.py:65" *)
+  wire \$9 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "normalize.py:132" *)
+  input end_in;
+  wire end_in;
+  (* src = "normalize.py:133" *)
+  reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "normalize.py:126" *)
+  output [4:0] ssss;
+  reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
+  (* src = "normalize.py:119" *)
+  input [12:0] val_in;
+  wire [12:0] val_in;
+  (* src = "normalize.py:121" *)
+  input [12:0] val_in_mns;
+  wire [12:0] val_in_mns;
+  (* src = "normalize.py:124" *)
+  output [11:0] val_out;
+  reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
+  (* src = "normalize.py:128" *)
+  input valid;
+  wire valid;
+  (* src = "normalize.py:129" *)
+  reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
+  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
+  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
+  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
+  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
+  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
+  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
+  assign \$22  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
+  assign \$25  = val_in + (* src = "normalize.py:67" *) 4'hf;
+  assign \$28  = val_in + (* src = "normalize.py:72" *) 5'h1f;
+  assign \$31  = val_in + (* src = "normalize.py:58" *) 6'h3f;
+  assign \$33  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
+  assign \$35  = val_in_mns[12:8] == (* src = "normalize.py:81" *) 5'h1f;
+  assign \$37  = val_in_mns[12:7] == (* src = "normalize.py:65" *) 6'h3f;
+  assign \$3  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
+  assign \$40  = val_in + (* src = "normalize.py:67" *) 7'h7f;
+  assign \$43  = val_in + (* src = "normalize.py:72" *) 8'hff;
+  assign \$46  = val_in + (* src = "normalize.py:58" *) 9'h1ff;
+  assign \$48  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
+  assign \$50  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
+  assign \$53  = val_in + (* src = "normalize.py:67" *) 10'h3ff;
+  assign \$56  = val_in + (* src = "normalize.py:72" *) 11'h7ff;
+  assign \$5  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
   assign \$59  = val_in + (* src = "normalize.py:58" *) 12'hfff;
   assign \$61  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
   assign \$63  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
@@ -1210,197 +2485,292 @@ module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -1417,1949 +2787,1491 @@ module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$4 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.integration_1.encode.U$$3" *)
+module \U$$3$4 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$136  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
-  output end_out;
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
-  output valid_out;
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$5 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.converter" *)
+module converter(enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, rst, clk, latch_output);
+  reg \$auto$verilog_backend.cc:2184:dump_module$137  = 0;
+  (* src = "converter.py:158" *)
+  wire \$1 ;
+  (* src = "converter.py:158" *)
+  wire \$11 ;
+  (* src = "converter.py:113" *)
+  wire \$13 ;
+  (* src = "converter.py:113" *)
+  wire \$15 ;
+  (* src = "converter.py:121" *)
+  wire \$17 ;
+  (* src = "converter.py:121" *)
+  wire \$19 ;
+  (* src = "converter.py:113" *)
+  wire \$21 ;
+  (* src = "converter.py:113" *)
+  wire \$23 ;
+  (* src = "converter.py:121" *)
+  wire \$25 ;
+  (* src = "converter.py:121" *)
+  wire \$27 ;
+  (* src = "converter.py:158" *)
+  wire \$29 ;
+  (* src = "converter.py:113" *)
+  wire \$3 ;
+  (* src = "converter.py:192" *)
+  wire \$31 ;
+  (* src = "converter.py:199" *)
+  wire \$33 ;
+  (* src = "converter.py:113" *)
+  wire \$35 ;
+  (* src = "converter.py:113" *)
+  wire \$37 ;
+  (* src = "converter.py:121" *)
+  wire \$39 ;
+  (* src = "converter.py:121" *)
+  wire \$41 ;
+  (* src = "converter.py:158" *)
+  wire \$43 ;
+  (* src = "converter.py:192" *)
+  wire \$45 ;
+  (* src = "converter.py:199" *)
+  wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
+  wire [47:0] \$49 ;
+  (* src = "converter.py:113" *)
+  wire \$5 ;
+  (* src = "converter.py:158" *)
+  wire \$51 ;
+  (* src = "converter.py:192" *)
+  wire \$53 ;
+  (* src = "converter.py:199" *)
+  wire \$55 ;
+  (* src = "converter.py:195" *)
+  wire [7:0] \$57 ;
+  (* src = "converter.py:195" *)
+  wire [7:0] \$58 ;
+  (* src = "converter.py:202" *)
+  wire [7:0] \$60 ;
+  (* src = "converter.py:202" *)
+  wire [7:0] \$61 ;
+  (* src = "converter.py:158" *)
+  wire \$63 ;
+  (* src = "converter.py:158" *)
+  wire \$65 ;
+  (* src = "converter.py:158" *)
+  wire \$67 ;
+  (* src = "converter.py:121" *)
+  wire \$7 ;
+  (* src = "converter.py:121" *)
+  wire \$9 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
+  wire clk;
+  (* src = "converter.py:70" *)
+  input close_full;
+  wire close_full;
+  (* src = "converter.py:66" *)
+  output [47:0] enc_in;
+  reg [47:0] enc_in = 48'h000000000000;
+  (* src = "converter.py:66" *)
+  reg [47:0] \enc_in$next ;
+  (* src = "converter.py:67" *)
+  output [5:0] enc_in_ctr;
+  reg [5:0] enc_in_ctr = 6'h00;
+  (* src = "converter.py:67" *)
+  reg [5:0] \enc_in_ctr$next ;
+  (* src = "converter.py:60" *)
+  input [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "converter.py:61" *)
+  input [6:0] enc_out_ctr;
+  wire [6:0] enc_out_ctr;
+  (* src = "converter.py:95" *)
+  reg [6:0] enc_out_ctr_reg = 7'h00;
+  (* src = "converter.py:95" *)
+  reg [6:0] \enc_out_ctr_reg$next ;
+  (* src = "converter.py:90" *)
+  reg [95:0] enc_out_latch = 96'h000000000000000000000000;
+  (* src = "converter.py:90" *)
+  reg [95:0] \enc_out_latch$next ;
+  (* src = "converter.py:94" *)
+  reg [111:0] enc_out_reg = 112'h0000000000000000000000000000;
+  (* src = "converter.py:94" *)
+  reg [111:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
+  reg [2:0] fsm_state = 3'h0;
+  (* src = "converter.py:134" *)
+  reg [2:0] \fsm_state$next ;
+  (* src = "converter.py:68" *)
+  output in_end;
+  reg in_end = 1'h0;
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
+  (* src = "converter.py:59" *)
+  output latch_output;
+  reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
+  (* src = "converter.py:62" *)
+  input out_end;
+  wire out_end;
+  (* src = "converter.py:91" *)
+  reg out_end_latch = 1'h0;
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
+  (* src = "converter.py:96" *)
+  reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  wire rst;
+  (* src = "converter.py:69" *)
+  output valid_in;
+  reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
+  (* src = "converter.py:63" *)
+  input valid_out;
+  wire valid_out;
+  (* src = "converter.py:97" *)
+  reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
+  assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
+  assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
+  assign \$15  = valid_out_reg & (* src = "converter.py:113" *) \$13 ;
+  assign \$17  = close_full == (* src = "converter.py:121" *) 1'h0;
+  assign \$1  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$19  = valid_out & (* src = "converter.py:121" *) \$17 ;
+  assign \$21  = close_full == (* src = "converter.py:113" *) 1'h0;
+  assign \$23  = valid_out_reg & (* src = "converter.py:113" *) \$21 ;
+  assign \$25  = close_full == (* src = "converter.py:121" *) 1'h0;
+  assign \$27  = valid_out & (* src = "converter.py:121" *) \$25 ;
+  assign \$29  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$31  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
+  assign \$33  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
+  assign \$35  = close_full == (* src = "converter.py:113" *) 1'h0;
+  assign \$37  = valid_out_reg & (* src = "converter.py:113" *) \$35 ;
+  assign \$3  = close_full == (* src = "converter.py:113" *) 1'h0;
+  assign \$39  = close_full == (* src = "converter.py:121" *) 1'h0;
+  assign \$41  = valid_out & (* src = "converter.py:121" *) \$39 ;
+  assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$45  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
+  assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[111:96];
+  assign \$51  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$53  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
+  assign \$55  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
+  assign \$58  = enc_out_ctr_reg - (* src = "converter.py:195" *) 6'h30;
+  assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
+  assign \$61  = enc_out_ctr_reg - (* src = "converter.py:202" *) 7'h60;
+  assign \$63  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$65  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$67  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
+  assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
+  always @(posedge clk)
+    out_end_latch <= \out_end_latch$next ;
+  always @(posedge clk)
+    enc_out_latch <= \enc_out_latch$next ;
+  always @(posedge clk)
+    in_end <= \in_end$next ;
+  always @(posedge clk)
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
+    casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
+      3'h1:
+          (* src = "converter.py:156" *)
+          casez (valid_out_reg)
+            /* src = "converter.py:156" */
+            1'h1:
+                (* src = "converter.py:158" *)
+                casez (\$1 )
+                  /* src = "converter.py:158" */
+                  1'h1:
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
+                endcase
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
+          endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
+      3'h3:
+          \valid_in$next  = 1'h1;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
+      3'h4:
+          \valid_in$next  = 1'h1;
     endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
+    casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+        begin
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
+          casez ({ \$9 , \$5  })
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
+          endcase
+        end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
+      3'h1:
+          (* src = "converter.py:156" *)
+          casez (valid_out_reg)
+            /* src = "converter.py:156" */
+            1'h1:
+                (* src = "converter.py:158" *)
+                casez (\$11 )
+                  /* src = "converter.py:158" */
+                  1'h1:
+                      (* src = "converter.py:165" *)
+                      casez (close_full)
+                        /* src = "converter.py:165" */
+                        1'h1:
+                            \latch_output$next  = 1'h0;
+                      endcase
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
+                endcase
+          endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
+      3'h3:
+          (* src = "converter.py:113" *)
+          casez ({ \$19 , \$15  })
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
+          endcase
     endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
+    casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
+      3'h1:
+          (* src = "converter.py:156" *)
+          casez (valid_out_reg)
+            /* src = "converter.py:156" */
+            1'h1:
+                (* src = "converter.py:158" *)
+                casez (\$65 )
+                  /* src = "converter.py:158" */
+                  1'h1:
+                      /* empty */;
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[95:0];
+                endcase
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \enc_out_latch$next  = 96'h000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
+    casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
+      3'h1:
+          (* src = "converter.py:156" *)
+          casez (valid_out_reg)
+            /* src = "converter.py:156" */
+            1'h1:
+                (* src = "converter.py:158" *)
+                casez (\$67 )
+                  /* src = "converter.py:158" */
+                  1'h1:
+                      /* empty */;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
+                endcase
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$6 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$7 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_1.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$8 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 56'h00000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$3  = \$6 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_1.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$9 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 56'h00000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$3  = \$6 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.converter" *)
-(* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
-  wire \$1 ;
-  wire \$11 ;
-  wire \$13 ;
-  wire \$15 ;
-  wire \$17 ;
-  wire \$19 ;
-  wire \$21 ;
-  wire \$23 ;
-  wire \$25 ;
-  wire \$27 ;
-  wire \$29 ;
-  wire \$3 ;
-  wire \$31 ;
-  wire \$33 ;
-  wire \$35 ;
-  wire \$37 ;
-  wire \$39 ;
-  wire \$41 ;
-  wire \$43 ;
-  wire \$45 ;
-  wire \$47 ;
-  wire [47:0] \$49 ;
-  wire \$5 ;
-  wire \$51 ;
-  wire \$53 ;
-  wire \$55 ;
-  wire [7:0] \$57 ;
-  wire [7:0] \$58 ;
-  wire [7:0] \$60 ;
-  wire [7:0] \$61 ;
-  wire \$63 ;
-  wire \$65 ;
-  wire \$67 ;
-  wire \$7 ;
-  wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [47:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [5:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [6:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [95:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [111:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "converter.py:70" *)
-  input close_full;
-  (* init = 48'h000000000000 *)
-  (* src = "converter.py:66" *)
-  output [47:0] enc_in;
-  reg [47:0] enc_in = 48'h000000000000;
-  (* init = 6'h00 *)
-  (* src = "converter.py:67" *)
-  output [5:0] enc_in_ctr;
-  reg [5:0] enc_in_ctr = 6'h00;
-  (* src = "converter.py:60" *)
-  input [111:0] enc_out;
-  (* src = "converter.py:61" *)
-  input [6:0] enc_out_ctr;
-  (* init = 7'h00 *)
-  (* src = "converter.py:95" *)
-  reg [6:0] enc_out_ctr_reg = 7'h00;
-  (* init = 96'h000000000000000000000000 *)
-  (* src = "converter.py:90" *)
-  reg [95:0] enc_out_latch = 96'h000000000000000000000000;
-  (* init = 112'h0000000000000000000000000000 *)
-  (* src = "converter.py:94" *)
-  reg [111:0] enc_out_reg = 112'h0000000000000000000000000000;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] fsm_state = 3'h0;
-  (* init = 1'h0 *)
-  (* src = "converter.py:68" *)
-  output in_end;
-  reg in_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "converter.py:59" *)
-  output latch_output;
-  reg latch_output = 1'h0;
-  (* src = "converter.py:62" *)
-  input out_end;
-  (* init = 1'h0 *)
-  (* src = "converter.py:91" *)
-  reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "converter.py:96" *)
-  reg out_end_reg = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* init = 1'h0 *)
-  (* src = "converter.py:69" *)
-  output valid_in;
-  reg valid_in = 1'h0;
-  (* src = "converter.py:63" *)
-  input valid_out;
-  (* init = 1'h0 *)
-  (* src = "converter.py:97" *)
-  reg valid_out_reg = 1'h0;
-  assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
-  assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
-  assign \$15  = valid_out_reg & (* src = "converter.py:113" *) \$13 ;
-  assign \$17  = close_full == (* src = "converter.py:121" *) 1'h0;
-  assign \$1  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$19  = valid_out & (* src = "converter.py:121" *) \$17 ;
-  assign \$21  = close_full == (* src = "converter.py:113" *) 1'h0;
-  assign \$23  = valid_out_reg & (* src = "converter.py:113" *) \$21 ;
-  assign \$25  = close_full == (* src = "converter.py:121" *) 1'h0;
-  assign \$27  = valid_out & (* src = "converter.py:121" *) \$25 ;
-  assign \$29  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$31  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
-  assign \$33  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
-  assign \$35  = close_full == (* src = "converter.py:113" *) 1'h0;
-  assign \$37  = valid_out_reg & (* src = "converter.py:113" *) \$35 ;
-  assign \$3  = close_full == (* src = "converter.py:113" *) 1'h0;
-  assign \$39  = close_full == (* src = "converter.py:121" *) 1'h0;
-  assign \$41  = valid_out & (* src = "converter.py:121" *) \$39 ;
-  assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$45  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
-  assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[111:96];
-  assign \$51  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$53  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
-  assign \$55  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
-  assign \$58  = enc_out_ctr_reg - (* src = "converter.py:195" *) 6'h30;
-  assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
-  assign \$61  = enc_out_ctr_reg - (* src = "converter.py:202" *) 7'h60;
-  assign \$63  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$65  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$67  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
-  assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
-  always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
-  always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
-  always @(posedge clk)
-      in_end <= \$next\in_end ;
-  always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
-  always @(posedge clk)
-      enc_in <= \$next\enc_in ;
-  always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
-  always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
-  always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
-  always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
-  always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @(posedge clk)
-      latch_output <= \$next\latch_output ;
-  always @(posedge clk)
-      valid_in <= \$next\valid_in ;
-  always @* begin
-    \$next\valid_in  = valid_in;
-    casez (fsm_state)
-      3'h0:
-          \$next\valid_in  = 1'h0;
-      3'h2:
-          \$next\valid_in  = 1'h0;
-      3'h1:
-          casez (valid_out_reg)
-            1'h1:
-                casez (\$1 )
-                  1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
-                endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
-          endcase
-      3'h3:
-          \$next\valid_in  = 1'h1;
-      3'h4:
-          \$next\valid_in  = 1'h1;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\valid_in  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\latch_output  = latch_output;
-    casez (fsm_state)
-      3'h0:
-        begin
-          \$next\latch_output  = 1'h0;
-          casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
-          endcase
-        end
-      3'h1:
-          casez (valid_out_reg)
-            1'h1:
-                casez (\$11 )
-                  1'h1:
-                      casez (close_full)
-                        1'h1:
-                            \$next\latch_output  = 1'h0;
-                      endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
-                endcase
-          endcase
-      3'h3:
-          casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\latch_output  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
-    casez (fsm_state)
-      3'h1:
-          casez (valid_out_reg)
-            1'h1:
-                casez (\$65 )
-                  1'h1:
-                      /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[95:0];
-                endcase
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_latch  = 96'h000000000000000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\out_end_latch  = out_end_latch;
-    casez (fsm_state)
-      3'h1:
-          casez (valid_out_reg)
-            1'h1:
-                casez (\$67 )
-                  1'h1:
-                      /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
-                endcase
-          endcase
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\out_end_latch  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
-            2'hz:
-                \$next\fsm_state  = 3'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\fsm_state  = 3'h1;
+          \fsm_state$next  = 3'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 3'h0;
+                            \fsm_state$next  = 3'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez ({ \$33 , \$31  })
-                        2'bz1:
-                            \$next\fsm_state  = 3'h3;
-                        2'b1z:
-                            \$next\fsm_state  = 3'h4;
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \fsm_state$next  = 3'h3;
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \fsm_state$next  = 3'h4;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$41 , \$37  })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
-            2'hz:
-                \$next\fsm_state  = 3'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\fsm_state  = 3'h3;
+          \fsm_state$next  = 3'h3;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 112'h0000000000000000000000000000;
+          \enc_out_reg$next  = 112'h0000000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 7'h00;
+          \enc_out_ctr_reg$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$43 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[47:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[47:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez ({ \$47 , \$45  })
-                        2'bz1:
-                            \$next\enc_in  = enc_out_reg[95:48];
-                        2'b1z:
-                            \$next\enc_in  = \$49 ;
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \enc_in$next  = enc_out_reg[95:48];
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \enc_in$next  = \$49 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\enc_in  = enc_out_latch[47:0];
+          \enc_in$next  = enc_out_latch[47:0];
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\enc_in  = enc_out_latch[95:48];
+          \enc_in$next  = enc_out_latch[95:48];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 48'h000000000000;
+          \enc_in$next  = 48'h000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$51 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[5:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[5:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 6'h30;
+                      \enc_in_ctr$next  = 6'h30;
+                      (* src = "converter.py:192" *)
                       casez ({ \$55 , \$53  })
-                        2'bz1:
-                            \$next\enc_in_ctr  = \$57 [5:0];
-                        2'b1z:
-                            \$next\enc_in_ctr  = \$60 [5:0];
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \enc_in_ctr$next  = \$58 [5:0];
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \enc_in_ctr$next  = \$61 [5:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\enc_in_ctr  = 6'h30;
+          \enc_in_ctr$next  = 6'h30;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\enc_in_ctr  = 6'h30;
+          \enc_in_ctr$next  = 6'h30;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 6'h00;
+          \enc_in_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$63 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$57  = \$58 ;
   assign \$60  = \$61 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.converter_fifo" *)
+module converter_fifo(enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, rst, clk, enc_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$138  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [47:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [54:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [47:0] enc_in;
+  wire [47:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [47:0] enc_out;
+  wire [47:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [54:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [54:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [8:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [54:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [54:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 8'hfa;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$11  fifo (
+    close_full <= \close_full$next ;
+  \fifo$8  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 55'h00000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 48'h000000000000;
-    \$next\enc_out  = fifo_dout[47:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[53:48];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[54];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[54];
+  assign enc_out_ctr = fifo_r_data[53:48];
+  assign enc_out = fifo_r_data[47:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , \pixel_in$3 , \predic_in$4 , \pixel_in$5 , \predic_in$6 , end_in, rst, clk, val_out, \val_out$7 , \val_out$8 , \val_out$9 , \val_out$10 , \val_out$11 , \val_out$12 , \val_out$13 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_1.difference" *)
+module difference(clk, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , predic_in, \predic_in$4 , \predic_in$5 , \predic_in$6 , valid_in, end_in, val_out, \val_out$7 , \val_out$8 , \val_out$9 , \val_out$10 , \val_out$11 , \val_out$12 , \val_out$13 , valid_out, end_out
+, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$139  = 0;
+  (* src = "difference.py:91" *)
   wire [12:0] \$14 ;
-  wire [12:0] \$16 ;
-  wire [12:0] \$18 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$16 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$17 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$20 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$22 ;
-  wire [12:0] \$23 ;
-  wire [13:0] \$25 ;
-  wire [13:0] \$27 ;
-  wire [12:0] \$28 ;
-  wire [13:0] \$30 ;
-  wire [13:0] \$32 ;
-  wire [12:0] \$33 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$23 ;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$26 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$28 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$29 ;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$32 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$34 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$35 ;
-  wire [13:0] \$37 ;
-  wire [12:0] \$38 ;
-  wire [13:0] \$40 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$10 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$11 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$12 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$13 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$7 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$8 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$9 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$19 ;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$25 ;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$31 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:55" *)
-  input [11:0] \pixel_in$3 ;
+  input [11:0] \pixel_in$2 ;
+  wire [11:0] \pixel_in$2 ;
   (* src = "difference.py:55" *)
-  input [11:0] \pixel_in$5 ;
+  input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
-  (* src = "difference.py:58" *)
-  input [11:0] \predic_in$2 ;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$4 ;
+  wire [11:0] \predic_in$4 ;
+  (* src = "difference.py:58" *)
+  input [11:0] \predic_in$5 ;
+  wire [11:0] \predic_in$5 ;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$6 ;
+  wire [11:0] \predic_in$6 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:64" *)
   output [12:0] \val_out$10 ;
   reg [12:0] \val_out$10  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$10$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$11 ;
   reg [12:0] \val_out$11  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$11$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$12 ;
   reg [12:0] \val_out$12  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$12$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$13 ;
   reg [12:0] \val_out$13  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$13$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$7 ;
   reg [12:0] \val_out$7  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$7$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$8 ;
   reg [12:0] \val_out$8  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$8$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$9 ;
   reg [12:0] \val_out$9  = 13'h0000;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$9$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$14  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
-  assign \$18  = \pixel_in$3  - (* src = "difference.py:89" *) \predic_in$4 ;
-  assign \$20  = \pixel_in$5  - (* src = "difference.py:89" *) \predic_in$6 ;
-  assign \$23  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$25  = \$23  - (* src = "difference.py:90" *) 1'h1;
-  assign \$28  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$30  = \$28  - (* src = "difference.py:90" *) 1'h1;
-  assign \$33  = \pixel_in$3  - (* src = "difference.py:90" *) \predic_in$4 ;
-  assign \$35  = \$33  - (* src = "difference.py:90" *) 1'h1;
-  assign \$38  = \pixel_in$5  - (* src = "difference.py:90" *) \predic_in$6 ;
-  assign \$40  = \$38  - (* src = "difference.py:90" *) 1'h1;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$14  = pixel_in - (* src = "difference.py:91" *) predic_in;
+  assign \$17  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$20  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$4 ;
+  assign \$23  = \diff$19  - (* src = "difference.py:98" *) 1'h1;
+  assign \$26  = \pixel_in$2  - (* src = "difference.py:91" *) \predic_in$5 ;
+  assign \$29  = \diff$25  - (* src = "difference.py:98" *) 1'h1;
+  assign \$32  = \pixel_in$3  - (* src = "difference.py:91" *) \predic_in$6 ;
+  assign \$35  = \diff$31  - (* src = "difference.py:98" *) 1'h1;
   always @(posedge clk)
-      \val_out$13  <= \$next\val_out$13 ;
+    \val_out$13  <= \val_out$13$next ;
   always @(posedge clk)
-      \val_out$12  <= \$next\val_out$12 ;
+    \val_out$9  <= \val_out$9$next ;
   always @(posedge clk)
-      \val_out$11  <= \$next\val_out$11 ;
+    \val_out$12  <= \val_out$12$next ;
   always @(posedge clk)
-      \val_out$10  <= \$next\val_out$10 ;
+    \val_out$8  <= \val_out$8$next ;
   always @(posedge clk)
-      \val_out$9  <= \$next\val_out$9 ;
+    \val_out$11  <= \val_out$11$next ;
   always @(posedge clk)
-      \val_out$8  <= \$next\val_out$8 ;
+    \val_out$7  <= \val_out$7$next ;
   always @(posedge clk)
-      \val_out$7  <= \$next\val_out$7 ;
+    \val_out$10  <= \val_out$10$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$14 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$14 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$7  = \val_out$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$9$next  = \val_out$9 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$7  = \$16 ;
+          \val_out$9$next  = \diff$31 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$7  = 13'h0000;
+          \val_out$9$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$8  = \val_out$8 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$13$next  = \val_out$13 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$8  = \$18 ;
+          \val_out$13$next  = \$35 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$8  = 13'h0000;
+          \val_out$13$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$9  = \val_out$9 ;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\val_out$9  = \$20 ;
+          \valid_out$next  = 1'h0;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$9  = 13'h0000;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\val_out$10  = \val_out$10 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$10$next  = \val_out$10 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$10  = \$22 [12:0];
+          \val_out$10$next  = \$17 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$10  = 13'h0000;
+          \val_out$10$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \diff$19  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$19  = \$20 ;
     endcase
   end
   always @* begin
-    \$next\val_out$11  = \val_out$11 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$7$next  = \val_out$7 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$11  = \$27 [12:0];
+          \val_out$7$next  = \diff$19 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$11  = 13'h0000;
+          \val_out$7$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$12  = \val_out$12 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$11$next  = \val_out$11 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$12  = \$32 [12:0];
+          \val_out$11$next  = \$23 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$12  = 13'h0000;
+          \val_out$11$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \diff$25  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$25  = \$26 ;
     endcase
   end
   always @* begin
-    \$next\val_out$13  = \val_out$13 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$8$next  = \val_out$8 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$13  = \$37 [12:0];
+          \val_out$8$next  = \diff$25 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$13  = 13'h0000;
+          \val_out$8$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \val_out$12$next  = \val_out$12 ;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \val_out$12$next  = \$29 [12:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \val_out$12$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \diff$31  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\end_out  = 1'h0;
+          \diff$31  = \$32 ;
     endcase
   end
-  assign \$22  = \$25 ;
-  assign \$27  = \$30 ;
-  assign \$32  = \$35 ;
-  assign \$37  = \$40 ;
+  assign \$16  = \$17 ;
+  assign \$22  = \$23 ;
+  assign \$28  = \$29 ;
+  assign \$34  = \$35 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , \val_in$3 , \ssss$4 , \val_in$5 , \ssss$6 , rst, clk, enc_out, enc_ctr, \enc_out$7 , \enc_ctr$8 , \enc_out$9 , \enc_ctr$10 , \enc_out$11 , \enc_ctr$12 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$10 ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$12 ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$8 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$11 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$7 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$9 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$14 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$23 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$32 ;
+(* \nmigen.hierarchy  = "top.integration_1.encode" *)
+module encode(clk, val_in, \val_in$1 , \val_in$2 , \val_in$3 , ssss, \ssss$4 , \ssss$5 , \ssss$6 , valid_in, end_in, enc_out, \enc_out$7 , \enc_out$8 , \enc_out$9 , enc_ctr, \enc_ctr$10 , \enc_ctr$11 , \enc_ctr$12 , valid_out, end_out
+, rst);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$41 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$51 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$54 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$57 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$26 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$35 ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$44 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$15 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$24 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$33 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$42 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$16 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$25 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$34 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$43 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$13 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$22 ;
+  wire \U$$1_valid_in ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$2_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$2_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$2_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$2_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$2_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$2_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$2_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$31 ;
+  wire \U$$2_valid_in ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$3_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$3_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$3_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$3_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$3_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$3_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$3_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$40 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$3_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$10 ;
+  wire [4:0] \enc_ctr$10 ;
   (* src = "encode.py:184" *)
-  output [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$20 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$29 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$38 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$47 ;
+  output [4:0] \enc_ctr$11 ;
+  wire [4:0] \enc_ctr$11 ;
   (* src = "encode.py:184" *)
-  output [4:0] \enc_ctr$8 ;
+  output [4:0] \enc_ctr$12 ;
+  wire [4:0] \enc_ctr$12 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:182" *)
-  output [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$19 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$28 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$37 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$46 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$7 ;
+  wire [27:0] \enc_out$7 ;
+  (* src = "encode.py:182" *)
+  output [27:0] \enc_out$8 ;
+  wire [27:0] \enc_out$8 ;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$9 ;
+  wire [27:0] \enc_out$9 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$14 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$23 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$32 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$41 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$18 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$51 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$54 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$57 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$14 ;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$16 ;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$18 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$52 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$55 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$58 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$27 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$36 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$45 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$26 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$35 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$44 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$15 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$17 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$19 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$15 ;
-  (* src = "encode.py:179" *)
-  input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$24 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$33 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$4 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$42 ;
+  wire [4:0] \ssss$4 ;
+  (* src = "encode.py:179" *)
+  input [4:0] \ssss$5 ;
+  wire [4:0] \ssss$5 ;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$6 ;
+  wire [4:0] \ssss$6 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$16 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$25 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:177" *)
-  input [11:0] \val_in$3 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$34 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$43 ;
+  input [11:0] \val_in$2 ;
+  wire [11:0] \val_in$2 ;
   (* src = "encode.py:177" *)
-  input [11:0] \val_in$5 ;
+  input [11:0] \val_in$3 ;
+  wire [11:0] \val_in$3 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$13 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$22 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$31 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$40 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$17 ;
-  \anonymous$4  \$21  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$20 ),
-    .enc_out(\enc_out$19 ),
-    .end_in(\end_in$14 ),
-    .end_out(\end_out$18 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$15 ),
-    .val_in(\val_in$16 ),
-    .valid_in(\valid_in$13 ),
-    .valid_out(\valid_out$17 )
-  );
-  \anonymous$5  \$30  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$29 ),
-    .enc_out(\enc_out$28 ),
-    .end_in(\end_in$23 ),
-    .rp_addr(\rp_addr$27 ),
-    .rp_data(\rp_data$26 ),
-    .rst(rst),
-    .ssss(\ssss$24 ),
-    .val_in(\val_in$25 ),
-    .valid_in(\valid_in$22 )
-  );
-  \anonymous$6  \$39  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$38 ),
-    .enc_out(\enc_out$37 ),
-    .end_in(\end_in$32 ),
-    .rp_addr(\rp_addr$36 ),
-    .rp_data(\rp_data$35 ),
-    .rst(rst),
-    .ssss(\ssss$33 ),
-    .val_in(\val_in$34 ),
-    .valid_in(\valid_in$31 )
-  );
-  \anonymous$7  \$48  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$47 ),
-    .enc_out(\enc_out$46 ),
-    .end_in(\end_in$41 ),
-    .rp_addr(\rp_addr$45 ),
-    .rp_data(\rp_data$44 ),
-    .rst(rst),
-    .ssss(\ssss$42 ),
-    .val_in(\val_in$43 ),
-    .valid_in(\valid_in$40 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -3376,653 +4288,427 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , \val_in$3 , \ssss$4
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
-  reg [3:0] _2_;
-  reg [3:0] _3_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
+  reg [32:0] _2_;
+  reg [32:0] _3_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr ;
-    _1_ <= \$next\mem_r_addr$51 ;
-    _2_ <= \$next\mem_r_addr$54 ;
-    _3_ <= \$next\mem_r_addr$57 ;
-  end
-  assign mem_r_data = mem[_0_];
-  assign \mem_r_data$52  = mem[_1_];
-  assign \mem_r_data$55  = mem[_2_];
-  assign \mem_r_data$58  = mem[_3_];
-  always @* begin
-    \$next\val_in$16  = 12'h000;
-    \$next\val_in$16  = val_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$22  = 1'h0;
-    \$next\valid_in$22  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$24  = 5'h00;
-    \$next\ssss$24  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$51  = 4'h0;
-    \$next\mem_r_addr$51  = \rp_addr$27 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$26  = 33'h000000000;
-    \$next\rp_data$26  = \mem_r_data$52 ;
-  end
-  always @* begin
-    \$next\enc_out$7  = 28'h0000000;
-    \$next\enc_out$7  = \enc_out$28 ;
-  end
-  always @* begin
-    \$next\enc_ctr$8  = 5'h00;
-    \$next\enc_ctr$8  = \enc_ctr$29 ;
-  end
-  always @* begin
-    \$next\val_in$34  = 12'h000;
-    \$next\val_in$34  = \val_in$3 ;
-  end
-  always @* begin
-    \$next\end_in$32  = 1'h0;
-    \$next\end_in$32  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$31  = 1'h0;
-    \$next\valid_in$31  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$33  = 5'h00;
-    \$next\ssss$33  = \ssss$4 ;
-  end
-  always @* begin
-    \$next\valid_in$13  = 1'h0;
-    \$next\valid_in$13  = valid_in;
-  end
-  always @* begin
-    \$next\mem_r_addr$54  = 4'h0;
-    \$next\mem_r_addr$54  = \rp_addr$36 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$35  = 33'h000000000;
-    \$next\rp_data$35  = \mem_r_data$55 ;
-  end
-  always @* begin
-    \$next\enc_out$9  = 28'h0000000;
-    \$next\enc_out$9  = \enc_out$37 ;
-  end
-  always @* begin
-    \$next\enc_ctr$10  = 5'h00;
-    \$next\enc_ctr$10  = \enc_ctr$38 ;
-  end
-  always @* begin
-    \$next\val_in$43  = 12'h000;
-    \$next\val_in$43  = \val_in$5 ;
-  end
-  always @* begin
-    \$next\end_in$41  = 1'h0;
-    \$next\end_in$41  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$40  = 1'h0;
-    \$next\valid_in$40  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$42  = 5'h00;
-    \$next\ssss$42  = \ssss$6 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$57  = 4'h0;
-    \$next\mem_r_addr$57  = \rp_addr$45 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$44  = 33'h000000000;
-    \$next\rp_data$44  = \mem_r_data$58 ;
-  end
-  always @* begin
-    \$next\ssss$15  = 5'h00;
-    \$next\ssss$15  = ssss;
-  end
-  always @* begin
-    \$next\enc_out$11  = 28'h0000000;
-    \$next\enc_out$11  = \enc_out$46 ;
-  end
-  always @* begin
-    \$next\enc_ctr$12  = 5'h00;
-    \$next\enc_ctr$12  = \enc_ctr$47 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$17 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$18 ;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$19 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$20 ;
-  end
-  always @* begin
-    \$next\val_in$25  = 12'h000;
-    \$next\val_in$25  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$23  = 1'h0;
-    \$next\end_in$23  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$12  = \$next\enc_ctr$12 ;
-  assign \enc_out$11  = \$next\enc_out$11 ;
-  assign \rp_data$44  = \$next\rp_data$44 ;
-  assign \mem_r_addr$57  = \$next\mem_r_addr$57 ;
-  assign \ssss$42  = \$next\ssss$42 ;
-  assign \valid_in$40  = \$next\valid_in$40 ;
-  assign \end_in$41  = \$next\end_in$41 ;
-  assign \val_in$43  = \$next\val_in$43 ;
-  assign \enc_ctr$10  = \$next\enc_ctr$10 ;
-  assign \enc_out$9  = \$next\enc_out$9 ;
-  assign \rp_data$35  = \$next\rp_data$35 ;
-  assign \mem_r_addr$54  = \$next\mem_r_addr$54 ;
-  assign \ssss$33  = \$next\ssss$33 ;
-  assign \valid_in$31  = \$next\valid_in$31 ;
-  assign \end_in$32  = \$next\end_in$32 ;
-  assign \val_in$34  = \$next\val_in$34 ;
-  assign \enc_ctr$8  = \$next\enc_ctr$8 ;
-  assign \enc_out$7  = \$next\enc_out$7 ;
-  assign \rp_data$26  = \$next\rp_data$26 ;
-  assign \mem_r_addr$51  = \$next\mem_r_addr$51 ;
-  assign \ssss$24  = \$next\ssss$24 ;
-  assign \valid_in$22  = \$next\valid_in$22 ;
-  assign \end_in$23  = \$next\end_in$23 ;
-  assign \val_in$25  = \$next\val_in$25 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$15  = \$next\ssss$15 ;
-  assign \valid_in$13  = \$next\valid_in$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \val_in$16  = \$next\val_in$16 ;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$14 ];
+    _2_ <= mem[\mem_r_addr$16 ];
+    _3_ <= mem[\mem_r_addr$18 ];
+  end
+  assign mem_r_data = _0_;
+  assign \mem_r_data$15  = _1_;
+  assign \mem_r_data$17  = _2_;
+  assign \mem_r_data$19  = _3_;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  \U$$2$3  \U$$2  (
+    .clk(clk),
+    .enc_ctr(\U$$2_enc_ctr ),
+    .enc_out(\U$$2_enc_out ),
+    .end_in(\U$$2_end_in ),
+    .rp_addr(\U$$2_rp_addr ),
+    .rp_data(\U$$2_rp_data ),
+    .rst(rst),
+    .ssss(\U$$2_ssss ),
+    .val_in(\U$$2_val_in ),
+    .valid_in(\U$$2_valid_in )
+  );
+  \U$$3$4  \U$$3  (
+    .clk(clk),
+    .enc_ctr(\U$$3_enc_ctr ),
+    .enc_out(\U$$3_enc_out ),
+    .end_in(\U$$3_end_in ),
+    .rp_addr(\U$$3_rp_addr ),
+    .rp_data(\U$$3_rp_data ),
+    .rst(rst),
+    .ssss(\U$$3_ssss ),
+    .val_in(\U$$3_val_in ),
+    .valid_in(\U$$3_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$12  = \U$$3_enc_ctr ;
+  assign \enc_out$9  = \U$$3_enc_out ;
+  assign \U$$3_rp_data  = \mem_r_data$19 ;
+  assign \mem_r_addr$18  = \U$$3_rp_addr [3:0];
+  assign \U$$3_ssss  = \ssss$6 ;
+  assign \U$$3_valid_in  = valid_in;
+  assign \U$$3_end_in  = end_in;
+  assign \U$$3_val_in  = \val_in$3 ;
+  assign \enc_ctr$11  = \U$$2_enc_ctr ;
+  assign \enc_out$8  = \U$$2_enc_out ;
+  assign \U$$2_rp_data  = \mem_r_data$17 ;
+  assign \mem_r_addr$16  = \U$$2_rp_addr [3:0];
+  assign \U$$2_ssss  = \ssss$5 ;
+  assign \U$$2_valid_in  = valid_in;
+  assign \U$$2_end_in  = end_in;
+  assign \U$$2_val_in  = \val_in$2 ;
+  assign \enc_ctr$10  = \U$$1_enc_ctr ;
+  assign \enc_out$7  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$15 ;
+  assign \mem_r_addr$14  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$4 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.lj92_pipeline_fifo.fifo" *)
+module fifo(clk, w_en, w_data, r_rdy, r_data, r_en, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$140  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [7:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [119:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [119:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [119:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [119:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [7:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [7:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [119:0] r_data;
+  wire [119:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [119:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [119:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [6:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [119:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [119:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [119:0] w_data;
+  wire [119:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 120'h000000000000000000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 120'h000000000000000000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 8'h00;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$11 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.converter_fifo.fifo" *)
+module \fifo$8 (clk, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$141  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [8:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [54:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [54:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [54:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [54:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [8:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [8:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [54:0] r_data;
+  wire [54:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [54:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [54:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [7:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [54:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [54:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [54:0] w_data;
+  wire [54:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$12  unbuffered (
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$9  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 55'h00000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 55'h00000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\level  = 9'h000;
-    \$next\level  = \$7 ;
+          \r_rdy$next  = 1'h0;
+    endcase
   end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.integration_1.force_end" *)
+module force_end(clk, allowed_cycles, valid_in, fend, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$142  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, full_clk, full_rst, fend_out, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, clk, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$13 ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$15 ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$17 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$14 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$16 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$18 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$39 ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$41 ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$43 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$38 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$40 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$42 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$50 ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$52 ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$54 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$51 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$53 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$55 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$26 ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$28 ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$30 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$27 ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$29 ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$31 ;
-  (* src = "predictor_p1_c4_px4.py:79" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_px4.py:66" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$4 ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$5 ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$6 ;
-  (* src = "predictor_p1_c4_px4.py:75" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.integration_1" *)
+module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, rst, clk, fend_out, full_clk, full_rst, end_of_frame);
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -4032,16 +4718,16 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "difference.py:55" *)
   wire [11:0] \difference_pixel_in$13 ;
   (* src = "difference.py:55" *)
-  wire [11:0] \difference_pixel_in$15 ;
+  wire [11:0] \difference_pixel_in$14 ;
   (* src = "difference.py:55" *)
-  wire [11:0] \difference_pixel_in$17 ;
+  wire [11:0] \difference_pixel_in$15 ;
   (* src = "difference.py:58" *)
   wire [11:0] difference_predic_in;
   (* src = "difference.py:58" *)
-  wire [11:0] \difference_predic_in$14 ;
-  (* src = "difference.py:58" *)
   wire [11:0] \difference_predic_in$16 ;
   (* src = "difference.py:58" *)
+  wire [11:0] \difference_predic_in$17 ;
+  (* src = "difference.py:58" *)
   wire [11:0] \difference_predic_in$18 ;
   (* src = "difference.py:61" *)
   wire [12:0] difference_val_out;
@@ -4063,26 +4749,28 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [111:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [6:0] enc_out_ctr;
+  wire [6:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
-  wire [4:0] \encode_enc_ctr$45 ;
-  (* src = "encode.py:184" *)
   wire [4:0] \encode_enc_ctr$47 ;
   (* src = "encode.py:184" *)
+  wire [4:0] \encode_enc_ctr$48 ;
+  (* src = "encode.py:184" *)
   wire [4:0] \encode_enc_ctr$49 ;
   (* src = "encode.py:182" *)
   wire [27:0] encode_enc_out;
   (* src = "encode.py:182" *)
   wire [27:0] \encode_enc_out$44 ;
   (* src = "encode.py:182" *)
-  wire [27:0] \encode_enc_out$46 ;
+  wire [27:0] \encode_enc_out$45 ;
   (* src = "encode.py:182" *)
-  wire [27:0] \encode_enc_out$48 ;
+  wire [27:0] \encode_enc_out$46 ;
   (* src = "encode.py:191" *)
   wire encode_end_in;
   (* src = "encode.py:192" *)
@@ -4090,29 +4778,32 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "encode.py:179" *)
   wire [4:0] encode_ssss;
   (* src = "encode.py:179" *)
-  wire [4:0] \encode_ssss$39 ;
-  (* src = "encode.py:179" *)
   wire [4:0] \encode_ssss$41 ;
   (* src = "encode.py:179" *)
+  wire [4:0] \encode_ssss$42 ;
+  (* src = "encode.py:179" *)
   wire [4:0] \encode_ssss$43 ;
   (* src = "encode.py:177" *)
   wire [11:0] encode_val_in;
   (* src = "encode.py:177" *)
   wire [11:0] \encode_val_in$38 ;
   (* src = "encode.py:177" *)
-  wire [11:0] \encode_val_in$40 ;
+  wire [11:0] \encode_val_in$39 ;
   (* src = "encode.py:177" *)
-  wire [11:0] \encode_val_in$42 ;
+  wire [11:0] \encode_val_in$40 ;
   (* src = "encode.py:187" *)
   wire encode_valid_in;
   (* src = "encode.py:188" *)
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -4121,23 +4812,25 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
   wire [27:0] \merge_enc_in$50 ;
   (* src = "merge.py:109" *)
-  wire [27:0] \merge_enc_in$52 ;
+  wire [27:0] \merge_enc_in$51 ;
   (* src = "merge.py:109" *)
-  wire [27:0] \merge_enc_in$54 ;
+  wire [27:0] \merge_enc_in$52 ;
   (* src = "merge.py:110" *)
   wire [4:0] merge_enc_in_ctr;
   (* src = "merge.py:110" *)
-  wire [4:0] \merge_enc_in_ctr$51 ;
-  (* src = "merge.py:110" *)
   wire [4:0] \merge_enc_in_ctr$53 ;
   (* src = "merge.py:110" *)
+  wire [4:0] \merge_enc_in_ctr$54 ;
+  (* src = "merge.py:110" *)
   wire [4:0] \merge_enc_in_ctr$55 ;
   (* src = "merge.py:112" *)
   wire [111:0] merge_enc_out;
@@ -4158,27 +4851,27 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$32 ;
-  (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$34 ;
+  wire [4:0] \normalize_ssss$35 ;
   (* src = "normalize.py:201" *)
   wire [4:0] \normalize_ssss$36 ;
+  (* src = "normalize.py:201" *)
+  wire [4:0] \normalize_ssss$37 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
   wire [12:0] \normalize_val_in$26 ;
   (* src = "normalize.py:194" *)
-  wire [12:0] \normalize_val_in$28 ;
+  wire [12:0] \normalize_val_in$27 ;
   (* src = "normalize.py:194" *)
-  wire [12:0] \normalize_val_in$30 ;
+  wire [12:0] \normalize_val_in$28 ;
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$33 ;
+  wire [11:0] \normalize_val_out$32 ;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$35 ;
+  wire [11:0] \normalize_val_out$33 ;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$37 ;
+  wire [11:0] \normalize_val_out$34 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -4186,19 +4879,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "normalize.py:196" *)
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
-  wire [12:0] \normalize_vals_in_mns$27 ;
-  (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$29 ;
   (* src = "normalize.py:196" *)
+  wire [12:0] \normalize_vals_in_mns$30 ;
+  (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$31 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "predictor_p1_c4_px4.py:79" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_px4.py:80" *)
@@ -4241,6 +4938,7 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -4249,21 +4947,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
     .end_out(difference_end_out),
     .pixel_in(difference_pixel_in),
     .\pixel_in$1 (\difference_pixel_in$13 ),
+    .\pixel_in$2 (\difference_pixel_in$14 ),
     .\pixel_in$3 (\difference_pixel_in$15 ),
-    .\pixel_in$5 (\difference_pixel_in$17 ),
     .predic_in(difference_predic_in),
-    .\predic_in$2 (\difference_predic_in$14 ),
     .\predic_in$4 (\difference_predic_in$16 ),
+    .\predic_in$5 (\difference_predic_in$17 ),
     .\predic_in$6 (\difference_predic_in$18 ),
     .rst(rst),
     .val_out(difference_val_out),
@@ -4281,23 +4981,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .clk(clk),
     .enc_ctr(encode_enc_ctr),
     .\enc_ctr$10 (\encode_enc_ctr$47 ),
+    .\enc_ctr$11 (\encode_enc_ctr$48 ),
     .\enc_ctr$12 (\encode_enc_ctr$49 ),
-    .\enc_ctr$8 (\encode_enc_ctr$45 ),
     .enc_out(encode_enc_out),
-    .\enc_out$11 (\encode_enc_out$48 ),
     .\enc_out$7 (\encode_enc_out$44 ),
+    .\enc_out$8 (\encode_enc_out$45 ),
     .\enc_out$9 (\encode_enc_out$46 ),
     .end_in(encode_end_in),
     .end_out(encode_end_out),
     .rst(rst),
     .ssss(encode_ssss),
-    .\ssss$2 (\encode_ssss$39 ),
     .\ssss$4 (\encode_ssss$41 ),
+    .\ssss$5 (\encode_ssss$42 ),
     .\ssss$6 (\encode_ssss$43 ),
     .val_in(encode_val_in),
     .\val_in$1 (\encode_val_in$38 ),
+    .\val_in$2 (\encode_val_in$39 ),
     .\val_in$3 (\encode_val_in$40 ),
-    .\val_in$5 (\encode_val_in$42 ),
     .valid_in(encode_valid_in),
     .valid_out(encode_valid_out)
   );
@@ -4312,11 +5012,11 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .clk(clk),
     .enc_in(merge_enc_in),
     .\enc_in$1 (\merge_enc_in$50 ),
+    .\enc_in$2 (\merge_enc_in$51 ),
     .\enc_in$3 (\merge_enc_in$52 ),
-    .\enc_in$5 (\merge_enc_in$54 ),
     .enc_in_ctr(merge_enc_in_ctr),
-    .\enc_in_ctr$2 (\merge_enc_in_ctr$51 ),
     .\enc_in_ctr$4 (\merge_enc_in_ctr$53 ),
+    .\enc_in_ctr$5 (\merge_enc_in_ctr$54 ),
     .\enc_in_ctr$6 (\merge_enc_in_ctr$55 ),
     .enc_out(merge_enc_out),
     .enc_out_ctr(merge_enc_out_ctr),
@@ -4332,22 +5032,22 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .end_out(normalize_end_out),
     .rst(rst),
     .ssss(normalize_ssss),
+    .\ssss$10 (\normalize_ssss$35 ),
     .\ssss$11 (\normalize_ssss$36 ),
-    .\ssss$7 (\normalize_ssss$32 ),
-    .\ssss$9 (\normalize_ssss$34 ),
+    .\ssss$12 (\normalize_ssss$37 ),
     .val_in(normalize_val_in),
     .\val_in$1 (\normalize_val_in$26 ),
+    .\val_in$2 (\normalize_val_in$27 ),
     .\val_in$3 (\normalize_val_in$28 ),
-    .\val_in$5 (\normalize_val_in$30 ),
     .val_out(normalize_val_out),
-    .\val_out$10 (\normalize_val_out$35 ),
-    .\val_out$12 (\normalize_val_out$37 ),
+    .\val_out$7 (\normalize_val_out$32 ),
     .\val_out$8 (\normalize_val_out$33 ),
+    .\val_out$9 (\normalize_val_out$34 ),
     .valid_in(normalize_valid_in),
     .valid_out(normalize_valid_out),
     .vals_in_mns(normalize_vals_in_mns),
-    .\vals_in_mns$2 (\normalize_vals_in_mns$27 ),
     .\vals_in_mns$4 (\normalize_vals_in_mns$29 ),
+    .\vals_in_mns$5 (\normalize_vals_in_mns$30 ),
     .\vals_in_mns$6 (\normalize_vals_in_mns$31 )
   );
   predictor predictor (
@@ -4388,1551 +5088,1124 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .rst(rst),
     .width(signals_width)
   );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$13  = 12'h000;
-    \$next\difference_pixel_in$13  = \predictor_pixel_out$7 ;
-  end
-  always @* begin
-    \$next\difference_pixel_in$15  = 12'h000;
-    \$next\difference_pixel_in$15  = \predictor_pixel_out$8 ;
-  end
-  always @* begin
-    \$next\difference_pixel_in$17  = 12'h000;
-    \$next\difference_pixel_in$17  = \predictor_pixel_out$9 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$14  = 12'h000;
-    \$next\difference_predic_in$14  = \predictor_predic_out$10 ;
-  end
-  always @* begin
-    \$next\difference_predic_in$16  = 12'h000;
-    \$next\difference_predic_in$16  = \predictor_predic_out$11 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\difference_predic_in$18  = 12'h000;
-    \$next\difference_predic_in$18  = \predictor_predic_out$12 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$26  = 13'h0000;
-    \$next\normalize_val_in$26  = \difference_val_out$19 ;
-  end
-  always @* begin
-    \$next\normalize_val_in$28  = 13'h0000;
-    \$next\normalize_val_in$28  = \difference_val_out$20 ;
-  end
-  always @* begin
-    \$next\normalize_val_in$30  = 13'h0000;
-    \$next\normalize_val_in$30  = \difference_val_out$21 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$22 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$27  = 13'h0000;
-    \$next\normalize_vals_in_mns$27  = \difference_val_out$23 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$29  = 13'h0000;
-    \$next\normalize_vals_in_mns$29  = \difference_val_out$24 ;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$31  = 13'h0000;
-    \$next\normalize_vals_in_mns$31  = \difference_val_out$25 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$38  = 12'h000;
-    \$next\encode_val_in$38  = \normalize_val_out$33 ;
-  end
-  always @* begin
-    \$next\encode_val_in$40  = 12'h000;
-    \$next\encode_val_in$40  = \normalize_val_out$35 ;
-  end
-  always @* begin
-    \$next\encode_val_in$42  = 12'h000;
-    \$next\encode_val_in$42  = \normalize_val_out$37 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$39  = 5'h00;
-    \$next\encode_ssss$39  = \normalize_ssss$32 ;
-  end
-  always @* begin
-    \$next\encode_ssss$41  = 5'h00;
-    \$next\encode_ssss$41  = \normalize_ssss$34 ;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\encode_ssss$43  = 5'h00;
-    \$next\encode_ssss$43  = \normalize_ssss$36 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\merge_enc_in$50  = 28'h0000000;
-    \$next\merge_enc_in$50  = \encode_enc_out$44 ;
-  end
-  always @* begin
-    \$next\merge_enc_in$52  = 28'h0000000;
-    \$next\merge_enc_in$52  = \encode_enc_out$46 ;
-  end
-  always @* begin
-    \$next\merge_enc_in$54  = 28'h0000000;
-    \$next\merge_enc_in$54  = \encode_enc_out$48 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$51  = 5'h00;
-    \$next\merge_enc_in_ctr$51  = \encode_enc_ctr$45 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$53  = 5'h00;
-    \$next\merge_enc_in_ctr$53  = \encode_enc_ctr$47 ;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$55  = 5'h00;
-    \$next\merge_enc_in_ctr$55  = \encode_enc_ctr$49 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$4  = 12'h000;
-    \$next\predictor_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$5  = 12'h000;
-    \$next\predictor_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$6  = 12'h000;
-    \$next\predictor_pixel_in$6  = \pixel_in$3 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$55  = \$next\merge_enc_in_ctr$55 ;
-  assign \merge_enc_in_ctr$53  = \$next\merge_enc_in_ctr$53 ;
-  assign \merge_enc_in_ctr$51  = \$next\merge_enc_in_ctr$51 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$54  = \$next\merge_enc_in$54 ;
-  assign \merge_enc_in$52  = \$next\merge_enc_in$52 ;
-  assign \merge_enc_in$50  = \$next\merge_enc_in$50 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$43  = \$next\encode_ssss$43 ;
-  assign \encode_ssss$41  = \$next\encode_ssss$41 ;
-  assign \encode_ssss$39  = \$next\encode_ssss$39 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$42  = \$next\encode_val_in$42 ;
-  assign \encode_val_in$40  = \$next\encode_val_in$40 ;
-  assign \encode_val_in$38  = \$next\encode_val_in$38 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$31  = \$next\normalize_vals_in_mns$31 ;
-  assign \normalize_vals_in_mns$29  = \$next\normalize_vals_in_mns$29 ;
-  assign \normalize_vals_in_mns$27  = \$next\normalize_vals_in_mns$27 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$30  = \$next\normalize_val_in$30 ;
-  assign \normalize_val_in$28  = \$next\normalize_val_in$28 ;
-  assign \normalize_val_in$26  = \$next\normalize_val_in$26 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$18  = \$next\difference_predic_in$18 ;
-  assign \difference_predic_in$16  = \$next\difference_predic_in$16 ;
-  assign \difference_predic_in$14  = \$next\difference_predic_in$14 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$17  = \$next\difference_pixel_in$17 ;
-  assign \difference_pixel_in$15  = \$next\difference_pixel_in$15 ;
-  assign \difference_pixel_in$13  = \$next\difference_pixel_in$13 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$6  = \$next\predictor_pixel_in$6 ;
-  assign \predictor_pixel_in$5  = \$next\predictor_pixel_in$5 ;
-  assign \predictor_pixel_in$4  = \$next\predictor_pixel_in$4 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$55  = \encode_enc_ctr$49 ;
+  assign \merge_enc_in_ctr$54  = \encode_enc_ctr$48 ;
+  assign \merge_enc_in_ctr$53  = \encode_enc_ctr$47 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$52  = \encode_enc_out$46 ;
+  assign \merge_enc_in$51  = \encode_enc_out$45 ;
+  assign \merge_enc_in$50  = \encode_enc_out$44 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$43  = \normalize_ssss$37 ;
+  assign \encode_ssss$42  = \normalize_ssss$36 ;
+  assign \encode_ssss$41  = \normalize_ssss$35 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$40  = \normalize_val_out$34 ;
+  assign \encode_val_in$39  = \normalize_val_out$33 ;
+  assign \encode_val_in$38  = \normalize_val_out$32 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$31  = \difference_val_out$25 ;
+  assign \normalize_vals_in_mns$30  = \difference_val_out$24 ;
+  assign \normalize_vals_in_mns$29  = \difference_val_out$23 ;
+  assign normalize_vals_in_mns = \difference_val_out$22 ;
+  assign \normalize_val_in$28  = \difference_val_out$21 ;
+  assign \normalize_val_in$27  = \difference_val_out$20 ;
+  assign \normalize_val_in$26  = \difference_val_out$19 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$18  = \predictor_predic_out$12 ;
+  assign \difference_predic_in$17  = \predictor_predic_out$11 ;
+  assign \difference_predic_in$16  = \predictor_predic_out$10 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$15  = \predictor_pixel_out$9 ;
+  assign \difference_pixel_in$14  = \predictor_pixel_out$8 ;
+  assign \difference_pixel_in$13  = \predictor_pixel_out$7 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$6  = \pixel_in$3 ;
+  assign \predictor_pixel_in$5  = \pixel_in$2 ;
+  assign \predictor_pixel_in$4  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, rst, clk, close_full);
+  reg \$auto$verilog_backend.cc:2184:dump_module$143  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [119:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [111:0] enc_in;
+  wire [111:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [6:0] enc_in_ctr;
+  wire [6:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [111:0] enc_out;
+  wire [111:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [6:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [119:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [119:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [6:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [7:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [119:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [119:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 7'h76;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 120'h000000000000000000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = fifo_dout[111:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = fifo_dout[118:112];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[119];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[119];
+  assign enc_out_ctr = fifo_r_data[118:112];
+  assign enc_out = fifo_r_data[111:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , \enc_in$3 , \enc_in_ctr$4 , \enc_in$5 , \enc_in_ctr$6 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* \nmigen.hierarchy  = "top.integration_1.merge" *)
+module merge(clk, enc_in, \enc_in$1 , \enc_in$2 , \enc_in$3 , enc_in_ctr, \enc_in_ctr$4 , \enc_in_ctr$5 , \enc_in_ctr$6 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, rst);
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
+  wire [27:0] \U$$0_enc_in1 ;
+  (* src = "merge.py:46" *)
+  wire [27:0] \U$$0_enc_in2 ;
+  (* src = "merge.py:44" *)
+  wire [4:0] \U$$0_enc_in_ctr1 ;
+  (* src = "merge.py:47" *)
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
+  (* src = "merge.py:57" *)
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
+  (* src = "merge.py:53" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
   (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1$17 ;
+  wire [27:0] \U$$1_enc_in1 ;
+  (* src = "merge.py:46" *)
+  wire [27:0] \U$$1_enc_in2 ;
+  (* src = "merge.py:44" *)
+  wire [4:0] \U$$1_enc_in_ctr1 ;
+  (* src = "merge.py:47" *)
+  wire [4:0] \U$$1_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$1_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$1_enc_out_ctr ;
+  (* src = "merge.py:57" *)
+  wire \U$$1_end_in ;
+  (* src = "merge.py:53" *)
+  wire \U$$1_valid_in ;
   (* src = "merge.py:43" *)
-  reg [55:0] \$next\enc_in1$26 ;
-  (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
-  (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2$18 ;
+  wire [55:0] \U$$2_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [55:0] \$next\enc_in2$27 ;
+  wire [55:0] \U$$2_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
-  (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1$15 ;
-  (* src = "merge.py:44" *)
-  reg [5:0] \$next\enc_in_ctr1$24 ;
-  (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2$16 ;
+  wire [5:0] \U$$2_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [5:0] \$next\enc_in_ctr2$25 ;
-  (* src = "merge.py:112" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:57" *)
-  reg \$next\end_in$19 ;
-  (* src = "merge.py:57" *)
-  reg \$next\end_in$28 ;
+  wire [5:0] \U$$2_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [111:0] \U$$2_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [6:0] \U$$2_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$8 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:53" *)
-  reg \$next\valid_in$14 ;
-  (* src = "merge.py:53" *)
-  reg \$next\valid_in$23 ;
+  wire \U$$2_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$2_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$7 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$2_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$2_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:109" *)
-  input [27:0] \enc_in$3 ;
+  input [27:0] \enc_in$2 ;
+  wire [27:0] \enc_in$2 ;
   (* src = "merge.py:109" *)
-  input [27:0] \enc_in$5 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:43" *)
-  wire [27:0] \enc_in1$17 ;
-  (* src = "merge.py:43" *)
-  wire [55:0] \enc_in1$26 ;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
-  (* src = "merge.py:46" *)
-  wire [27:0] \enc_in2$18 ;
-  (* src = "merge.py:46" *)
-  wire [55:0] \enc_in2$27 ;
+  input [27:0] \enc_in$3 ;
+  wire [27:0] \enc_in$3 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
-  (* src = "merge.py:110" *)
-  input [4:0] \enc_in_ctr$2 ;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$4 ;
+  wire [4:0] \enc_in_ctr$4 ;
+  (* src = "merge.py:110" *)
+  input [4:0] \enc_in_ctr$5 ;
+  wire [4:0] \enc_in_ctr$5 ;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$6 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:44" *)
-  wire [4:0] \enc_in_ctr1$15 ;
-  (* src = "merge.py:44" *)
-  wire [5:0] \enc_in_ctr1$24 ;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
-  (* src = "merge.py:47" *)
-  wire [4:0] \enc_in_ctr2$16 ;
-  (* src = "merge.py:47" *)
-  wire [5:0] \enc_in_ctr2$25 ;
+  wire [4:0] \enc_in_ctr$6 ;
   (* src = "merge.py:112" *)
   output [111:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$10 ;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$21 ;
-  (* src = "merge.py:49" *)
-  wire [111:0] \enc_out$30 ;
+  wire [111:0] enc_out;
   (* src = "merge.py:113" *)
   output [6:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$20 ;
-  (* src = "merge.py:50" *)
-  wire [6:0] \enc_out_ctr$29 ;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$9 ;
+  wire [6:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$19 ;
-  (* src = "merge.py:57" *)
-  wire \end_in$28 ;
-  (* src = "merge.py:57" *)
-  wire \end_in$8 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$12 ;
-  (* src = "merge.py:58" *)
-  wire \end_out$32 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$14 ;
-  (* src = "merge.py:53" *)
-  wire \valid_in$23 ;
-  (* src = "merge.py:53" *)
-  wire \valid_in$7 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$11 ;
-  (* src = "merge.py:54" *)
-  wire \valid_out$31 ;
-  \anonymous$8  \$13  (
+  wire valid_out;
+  \U$$0$5  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$10 ),
-    .enc_out_ctr(\enc_out_ctr$9 ),
-    .end_in(\end_in$8 ),
-    .end_out(\end_out$12 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$7 ),
-    .valid_out(\valid_out$11 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  \anonymous$9  \$22  (
+  \U$$1$6  \U$$1  (
     .clk(clk),
-    .enc_in1(\enc_in1$17 ),
-    .enc_in2(\enc_in2$18 ),
-    .enc_in_ctr1(\enc_in_ctr1$15 ),
-    .enc_in_ctr2(\enc_in_ctr2$16 ),
-    .enc_out(\enc_out$21 ),
-    .enc_out_ctr(\enc_out_ctr$20 ),
-    .end_in(\end_in$19 ),
+    .enc_in1(\U$$1_enc_in1 ),
+    .enc_in2(\U$$1_enc_in2 ),
+    .enc_in_ctr1(\U$$1_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$1_enc_in_ctr2 ),
+    .enc_out(\U$$1_enc_out ),
+    .enc_out_ctr(\U$$1_enc_out_ctr ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .valid_in(\valid_in$14 )
+    .valid_in(\U$$1_valid_in )
   );
-  \anonymous$10  \$33  (
+  \U$$2$7  \U$$2  (
     .clk(clk),
-    .enc_in1(\enc_in1$26 ),
-    .enc_in2(\enc_in2$27 ),
-    .enc_in_ctr1(\enc_in_ctr1$24 ),
-    .enc_in_ctr2(\enc_in_ctr2$25 ),
-    .enc_out(\enc_out$30 ),
-    .enc_out_ctr(\enc_out_ctr$29 ),
-    .end_in(\end_in$28 ),
-    .end_out(\end_out$32 ),
+    .enc_in1(\U$$2_enc_in1 ),
+    .enc_in2(\U$$2_enc_in2 ),
+    .enc_in_ctr1(\U$$2_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$2_enc_in_ctr2 ),
+    .enc_out(\U$$2_enc_out ),
+    .enc_out_ctr(\U$$2_enc_out_ctr ),
+    .end_in(\U$$2_end_in ),
+    .end_out(\U$$2_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$23 ),
-    .valid_out(\valid_out$31 )
+    .valid_in(\U$$2_valid_in ),
+    .valid_out(\U$$2_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\enc_in2$18  = 28'h0000000;
-    \$next\enc_in2$18  = \enc_in$5 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2$16  = 5'h00;
-    \$next\enc_in_ctr2$16  = \enc_in_ctr$6 ;
-  end
-  always @* begin
-    \$next\enc_in1$26  = 56'h00000000000000;
-    \$next\enc_in1$26  = \enc_out$10 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr1$24  = 6'h00;
-    \$next\enc_in_ctr1$24  = \enc_out_ctr$9 ;
-  end
-  always @* begin
-    \$next\enc_in2$27  = 56'h00000000000000;
-    \$next\enc_in2$27  = \enc_out$21 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2$25  = 6'h00;
-    \$next\enc_in_ctr2$25  = \enc_out_ctr$20 ;
-  end
-  always @* begin
-    \$next\valid_in$23  = 1'h0;
-    \$next\valid_in$23  = \valid_out$11 ;
-  end
-  always @* begin
-    \$next\end_in$28  = 1'h0;
-    \$next\end_in$28  = \end_out$12 ;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = \enc_out$30 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$29 ;
-  end
-  always @* begin
-    \$next\valid_in$7  = 1'h0;
-    \$next\valid_in$7  = valid_in;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$31 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$32 ;
-  end
-  always @* begin
-    \$next\end_in$8  = 1'h0;
-    \$next\end_in$8  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_in1$17  = 28'h0000000;
-    \$next\enc_in1$17  = \enc_in$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr1$15  = 5'h00;
-    \$next\enc_in_ctr1$15  = \enc_in_ctr$4 ;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$19  = 1'h0;
-    \$next\end_in$19  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign \end_in$28  = \$next\end_in$28 ;
-  assign \valid_in$23  = \$next\valid_in$23 ;
-  assign \enc_in_ctr2$25  = \$next\enc_in_ctr2$25 ;
-  assign \enc_in2$27  = \$next\enc_in2$27 ;
-  assign \enc_in_ctr1$24  = \$next\enc_in_ctr1$24 ;
-  assign \enc_in1$26  = \$next\enc_in1$26 ;
-  assign \enc_in_ctr2$16  = \$next\enc_in_ctr2$16 ;
-  assign \enc_in2$18  = \$next\enc_in2$18 ;
-  assign \end_in$19  = \$next\end_in$19 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \enc_in_ctr1$15  = \$next\enc_in_ctr1$15 ;
-  assign \enc_in1$17  = \$next\enc_in1$17 ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$8  = \$next\end_in$8 ;
-  assign \valid_in$7  = \$next\valid_in$7 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$2_end_out ;
+  assign valid_out = \U$$2_valid_out ;
+  assign enc_out_ctr = \U$$2_enc_out_ctr ;
+  assign enc_out = \U$$2_enc_out ;
+  assign \U$$2_end_in  = \U$$0_end_out ;
+  assign \U$$2_valid_in  = \U$$0_valid_out ;
+  assign \U$$2_enc_in_ctr2  = \U$$1_enc_out_ctr ;
+  assign \U$$2_enc_in2  = \U$$1_enc_out ;
+  assign \U$$2_enc_in_ctr1  = \U$$0_enc_out_ctr ;
+  assign \U$$2_enc_in1  = \U$$0_enc_out ;
+  assign \U$$1_enc_in_ctr2  = \enc_in_ctr$6 ;
+  assign \U$$1_enc_in2  = \enc_in$3 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_enc_in_ctr1  = \enc_in_ctr$5 ;
+  assign \U$$1_enc_in1  = \enc_in$2 ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$4 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , \val_in$3 , \vals_in_mns$4 , \val_in$5 , \vals_in_mns$6 , rst, clk, ssss, val_out, \ssss$7 , \val_out$8 , \ssss$9 , \val_out$10 , \ssss$11 , \val_out$12 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$22 ;
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$29 ;
+(* \nmigen.hierarchy  = "top.integration_1.normalize" *)
+module normalize(clk, val_in, \val_in$1 , \val_in$2 , \val_in$3 , vals_in_mns, \vals_in_mns$4 , \vals_in_mns$5 , \vals_in_mns$6 , valid_in, end_in, val_out, \val_out$7 , \val_out$8 , \val_out$9 , ssss, \ssss$10 , \ssss$11 , \ssss$12 , valid_out, end_out
+, rst);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$36 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$11 ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$7 ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$9 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$13 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$20 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$27 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$34 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$21 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$28 ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$35 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$10 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$12 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$8 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$19 ;
+  wire \U$$1_valid ;
+  (* src = "normalize.py:132" *)
+  wire \U$$2_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$2_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$2_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$2_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$2_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$26 ;
+  wire \U$$2_valid ;
+  (* src = "normalize.py:132" *)
+  wire \U$$3_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$3_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$3_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$3_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$3_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$33 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$3_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$22 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$29 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$36 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$17 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$11 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$24 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$31 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$38 ;
+  output [4:0] \ssss$10 ;
+  wire [4:0] \ssss$10 ;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$7 ;
+  output [4:0] \ssss$11 ;
+  wire [4:0] \ssss$11 ;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$9 ;
+  output [4:0] \ssss$12 ;
+  wire [4:0] \ssss$12 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$13 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$20 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$27 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:194" *)
-  input [12:0] \val_in$3 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$34 ;
+  input [12:0] \val_in$2 ;
+  wire [12:0] \val_in$2 ;
   (* src = "normalize.py:194" *)
-  input [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$21 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$28 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$35 ;
+  input [12:0] \val_in$3 ;
+  wire [12:0] \val_in$3 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$10 ;
-  (* src = "normalize.py:199" *)
-  output [11:0] \val_out$12 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$23 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$30 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$37 ;
+  output [11:0] \val_out$7 ;
+  wire [11:0] \val_out$7 ;
   (* src = "normalize.py:199" *)
   output [11:0] \val_out$8 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$19 ;
-  (* src = "normalize.py:128" *)
-  wire \valid$26 ;
-  (* src = "normalize.py:128" *)
-  wire \valid$33 ;
+  wire [11:0] \val_out$8 ;
+  (* src = "normalize.py:199" *)
+  output [11:0] \val_out$9 ;
+  wire [11:0] \val_out$9 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
-  (* src = "normalize.py:196" *)
-  input [12:0] \vals_in_mns$2 ;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$4 ;
+  wire [12:0] \vals_in_mns$4 ;
+  (* src = "normalize.py:196" *)
+  input [12:0] \vals_in_mns$5 ;
+  wire [12:0] \vals_in_mns$5 ;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$6 ;
-  anonymous \$18  (
+  wire [12:0] \vals_in_mns$6 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$14 ),
-    .end_out(\end_out$17 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$13 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$15 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$25  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$22 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$24 ),
-    .val_in(\val_in$20 ),
-    .val_in_mns(\val_in_mns$21 ),
-    .val_out(\val_out$23 ),
-    .valid(\valid$19 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  \anonymous$2  \$32  (
+  \U$$2  \U$$2  (
     .clk(clk),
-    .end_in(\end_in$29 ),
+    .end_in(\U$$2_end_in ),
     .rst(rst),
-    .ssss(\ssss$31 ),
-    .val_in(\val_in$27 ),
-    .val_in_mns(\val_in_mns$28 ),
-    .val_out(\val_out$30 ),
-    .valid(\valid$26 )
+    .ssss(\U$$2_ssss ),
+    .val_in(\U$$2_val_in ),
+    .val_in_mns(\U$$2_val_in_mns ),
+    .val_out(\U$$2_val_out ),
+    .valid(\U$$2_valid )
   );
-  \anonymous$3  \$39  (
+  \U$$3  \U$$3  (
     .clk(clk),
-    .end_in(\end_in$36 ),
-    .rst(rst),
-    .ssss(\ssss$38 ),
-    .val_in(\val_in$34 ),
-    .val_in_mns(\val_in_mns$35 ),
-    .val_out(\val_out$37 ),
-    .valid(\valid$33 )
-  );
-  always @* begin
-    \$next\val_in$13  = 13'h0000;
-    \$next\val_in$13  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = \ssss$24 ;
-  end
-  always @* begin
-    \$next\val_out$8  = 12'h000;
-    \$next\val_out$8  = \val_out$23 ;
-  end
-  always @* begin
-    \$next\val_in$27  = 13'h0000;
-    \$next\val_in$27  = \val_in$3 ;
-  end
-  always @* begin
-    \$next\valid$26  = 1'h0;
-    \$next\valid$26  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$29  = 1'h0;
-    \$next\end_in$29  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$28  = 13'h0000;
-    \$next\val_in_mns$28  = \vals_in_mns$4 ;
-  end
-  always @* begin
-    \$next\ssss$9  = 5'h00;
-    \$next\ssss$9  = \ssss$31 ;
-  end
-  always @* begin
-    \$next\val_out$10  = 12'h000;
-    \$next\val_out$10  = \val_out$30 ;
-  end
-  always @* begin
-    \$next\val_in$34  = 13'h0000;
-    \$next\val_in$34  = \val_in$5 ;
-  end
-  always @* begin
-    \$next\valid$33  = 1'h0;
-    \$next\valid$33  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\end_in$36  = 1'h0;
-    \$next\end_in$36  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$35  = 13'h0000;
-    \$next\val_in_mns$35  = \vals_in_mns$6 ;
-  end
-  always @* begin
-    \$next\ssss$11  = 5'h00;
-    \$next\ssss$11  = \ssss$38 ;
-  end
-  always @* begin
-    \$next\val_out$12  = 12'h000;
-    \$next\val_out$12  = \val_out$37 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$17 ;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\val_in$20  = 13'h0000;
-    \$next\val_in$20  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$19  = 1'h0;
-    \$next\valid$19  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$22  = 1'h0;
-    \$next\end_in$22  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$21  = 13'h0000;
-    \$next\val_in_mns$21  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$12  = \$next\val_out$12 ;
-  assign \ssss$11  = \$next\ssss$11 ;
-  assign \val_in_mns$35  = \$next\val_in_mns$35 ;
-  assign \end_in$36  = \$next\end_in$36 ;
-  assign \valid$33  = \$next\valid$33 ;
-  assign \val_in$34  = \$next\val_in$34 ;
-  assign \val_out$10  = \$next\val_out$10 ;
-  assign \ssss$9  = \$next\ssss$9 ;
-  assign \val_in_mns$28  = \$next\val_in_mns$28 ;
-  assign \end_in$29  = \$next\end_in$29 ;
-  assign \valid$26  = \$next\valid$26 ;
-  assign \val_in$27  = \$next\val_in$27 ;
-  assign \val_out$8  = \$next\val_out$8 ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \val_in_mns$21  = \$next\val_in_mns$21 ;
-  assign \end_in$22  = \$next\end_in$22 ;
-  assign \valid$19  = \$next\valid$19 ;
-  assign \val_in$20  = \$next\val_in$20 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign valid = \$next\valid ;
-  assign \val_in$13  = \$next\val_in$13 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_1.predictor" *)
-(* generator = "nMigen" *)
-module predictor(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , new_row, end_in, rst, clk, pixel_out, \pixel_out$4 , \pixel_out$5 , \pixel_out$6 , predic_out, \predic_out$7 , \predic_out$8 , \predic_out$9 , valid_out, end_out, valid_in);
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$11 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$13 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$15 ;
-  (* src = "predictor_p1_c4_px4.py:80" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$10 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$12 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$14 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$4 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$5 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$6 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$7 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$8 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$9 ;
-  (* src = "predictor_p1_c4_px4.py:76" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
+    .end_in(\U$$3_end_in ),
+    .rst(rst),
+    .ssss(\U$$3_ssss ),
+    .val_in(\U$$3_val_in ),
+    .val_in_mns(\U$$3_val_in_mns ),
+    .val_out(\U$$3_val_out ),
+    .valid(\U$$3_valid )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$9  = \U$$3_val_out ;
+  assign \ssss$12  = \U$$3_ssss ;
+  assign \U$$3_val_in_mns  = \vals_in_mns$6 ;
+  assign \U$$3_end_in  = end_in;
+  assign \U$$3_valid  = valid_in;
+  assign \U$$3_val_in  = \val_in$3 ;
+  assign \val_out$8  = \U$$2_val_out ;
+  assign \ssss$11  = \U$$2_ssss ;
+  assign \U$$2_val_in_mns  = \vals_in_mns$5 ;
+  assign \U$$2_end_in  = end_in;
+  assign \U$$2_valid  = valid_in;
+  assign \U$$2_val_in  = \val_in$2 ;
+  assign \val_out$7  = \U$$1_val_out ;
+  assign \ssss$10  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$4 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_1.predictor" *)
+module predictor(clk, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , new_row, end_in, valid_in, pixel_out, \pixel_out$4 , \pixel_out$5 , \pixel_out$6 , predic_out, \predic_out$7 , \predic_out$8 , \predic_out$9 , valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$144  = 0;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$11  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$11$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$13  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$13$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$15  = 12'h800;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$15$next ;
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "predictor_p1_c4_px4.py:79" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_px4.py:80" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:80" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$10  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$10$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$12  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$12$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$14  = 12'h800;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$14$next ;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_px4.py:66" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$2 ;
+  wire [11:0] \pixel_in$2 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$3 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$3 ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$4 ;
   reg [11:0] \pixel_out$4  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$4$next ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$5 ;
   reg [11:0] \pixel_out$5  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$5$next ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$6 ;
   reg [11:0] \pixel_out$6  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$6$next ;
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$7 ;
   reg [11:0] \predic_out$7  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$7$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$8 ;
   reg [11:0] \predic_out$8  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$8$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$9 ;
   reg [11:0] \predic_out$9  = 12'h000;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$9$next ;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_px4.py:75" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_px4.py:76" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_px4.py:76" *)
+  reg \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \buff$15  <= \$next\buff$15 ;
+    \buff$15  <= \buff$15$next ;
   always @(posedge clk)
-      \buff$13  <= \$next\buff$13 ;
+    \buff$13  <= \buff$13$next ;
   always @(posedge clk)
-      \buff$11  <= \$next\buff$11 ;
+    \buff$11  <= \buff$11$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      \lbuff$14  <= \$next\lbuff$14 ;
+    \lbuff$14  <= \lbuff$14$next ;
   always @(posedge clk)
-      \lbuff$12  <= \$next\lbuff$12 ;
+    \lbuff$12  <= \lbuff$12$next ;
   always @(posedge clk)
-      \lbuff$10  <= \$next\lbuff$10 ;
+    \lbuff$10  <= \lbuff$10$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      \predic_out$9  <= \$next\predic_out$9 ;
+    \predic_out$9  <= \predic_out$9$next ;
   always @(posedge clk)
-      \predic_out$8  <= \$next\predic_out$8 ;
+    \predic_out$8  <= \predic_out$8$next ;
   always @(posedge clk)
-      \predic_out$7  <= \$next\predic_out$7 ;
+    \predic_out$7  <= \predic_out$7$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \pixel_out$6  <= \$next\pixel_out$6 ;
+    \pixel_out$6  <= \pixel_out$6$next ;
   always @(posedge clk)
-      \pixel_out$5  <= \$next\pixel_out$5 ;
+    \pixel_out$5  <= \pixel_out$5$next ;
   always @(posedge clk)
-      \pixel_out$4  <= \$next\pixel_out$4 ;
+    \pixel_out$4  <= \pixel_out$4$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$4  = \pixel_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \pixel_out$4$next  = \pixel_out$4 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$4  = \pixel_in$1 ;
+          \pixel_out$4$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$4  = 12'h000;
+          \pixel_out$4$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\lbuff$12  = \lbuff$12 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \lbuff$12$next  = \lbuff$12 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$12  = \pixel_in$2 ;
+                \lbuff$12$next  = \pixel_in$2 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$12  = 12'h800;
+          \lbuff$12$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$14  = \lbuff$14 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \lbuff$14$next  = \lbuff$14 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$14  = \pixel_in$3 ;
+                \lbuff$14$next  = \pixel_in$3 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$14  = 12'h800;
+          \lbuff$14$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff  = pixel_in;
+          \buff$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$11  = \buff$11 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \buff$11$next  = \buff$11 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$11  = \pixel_in$1 ;
+          \buff$11$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$11  = 12'h800;
+          \buff$11$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$13  = \buff$13 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \buff$13$next  = \buff$13 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$13  = \pixel_in$2 ;
+          \buff$13$next  = \pixel_in$2 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$13  = 12'h800;
+          \buff$13$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$15  = \buff$15 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \buff$15$next  = \buff$15 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$15  = \pixel_in$3 ;
+          \buff$15$next  = \pixel_in$3 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$15  = 12'h800;
+          \buff$15$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\pixel_out$5  = \pixel_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \pixel_out$5$next  = \pixel_out$5 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$5  = \pixel_in$2 ;
+          \pixel_out$5$next  = \pixel_in$2 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$5  = 12'h000;
+          \pixel_out$5$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$6  = \pixel_out$6 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \pixel_out$6$next  = \pixel_out$6 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$6  = \pixel_in$3 ;
+          \pixel_out$6$next  = \pixel_in$3 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$6  = 12'h000;
+          \pixel_out$6$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out  = lbuff;
-            1'hz:
-                \$next\predic_out  = buff;
+                \predic_out$next  = lbuff;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$next  = buff;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$7  = \predic_out$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \predic_out$7$next  = \predic_out$7 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$7  = \lbuff$10 ;
-            1'hz:
-                \$next\predic_out$7  = \buff$11 ;
+                \predic_out$7$next  = \lbuff$10 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$7$next  = \buff$11 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$7  = 12'h000;
+          \predic_out$7$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$8  = \predic_out$8 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \predic_out$8$next  = \predic_out$8 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$8  = \lbuff$12 ;
-            1'hz:
-                \$next\predic_out$8  = \buff$13 ;
+                \predic_out$8$next  = \lbuff$12 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$8$next  = \buff$13 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$8  = 12'h000;
+          \predic_out$8$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$9  = \predic_out$9 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \predic_out$9$next  = \predic_out$9 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$9  = \lbuff$14 ;
-            1'hz:
-                \$next\predic_out$9  = \buff$15 ;
+                \predic_out$9$next  = \lbuff$14 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$9$next  = \buff$15 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$9  = 12'h000;
+          \predic_out$9$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff  = pixel_in;
+                \lbuff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$10  = \lbuff$10 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \lbuff$10$next  = \lbuff$10 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$10  = \pixel_in$1 ;
+                \lbuff$10$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$10  = 12'h800;
+          \lbuff$10$next  = 12'h800;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_rst, clk, width, height, allowed_cycles, full_clk);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\clk ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.integration_1.register_file" *)
+module register_file(height, width, allowed_cycles, full_clk, full_rst, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$145  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
-  assign clk = \$next\clk ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
+  assign clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.integration_1.signals" *)
+module signals(rst, clk, height, width, new_input, new_row, end_of_frame);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 3'h4;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -5947,124 +6220,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 3'h4;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 3'h4;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -6073,99 +6415,64 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_output, rst, full_clk, full_rst, enc_out, enc_out_ctr, nready, valid_out, fend_out, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(\pixel_in$1 , \pixel_in$2 , \pixel_in$3 , enc_out, enc_out_ctr, latch_output, nready, valid_in, valid_out, fend_out, out_end, full_clk, full_rst, rst, pixel_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:62" *)
   wire \$13 ;
+  (* src = "integration_2.py:62" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:61" *)
   wire \$19 ;
+  (* src = "integration_2.py:61" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:62" *)
   wire \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$31 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$33 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$34 ;
+  (* src = "integration_2.py:70" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:75" *)
   wire \$44 ;
+  (* src = "integration_2.py:75" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:80" *)
   wire \$50 ;
+  (* src = "integration_2.py:80" *)
   wire \$52 ;
+  (* src = "converter_fifo.py:65" *)
   wire [111:0] \$54 ;
+  (* src = "converter_fifo.py:66" *)
   wire [6:0] \$56 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [111:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [6:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [47:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [5:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$4 ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$5 ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$6 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [111:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [6:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
@@ -6207,38 +6514,44 @@ module top(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_output, rst
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [111:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [6:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [6:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [111:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [111:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [6:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$4 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$5 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$6 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -6259,73 +6572,86 @@ module top(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_output, rst
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
+  output out_end;
   wire out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$15  = \$11  & (* src = "integration_2.py:61" *) \$13 ;
-  assign \$17  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$19  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$21  = \$17  | (* src = "integration_2.py:60" *) \$19 ;
-  assign \$23  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$25  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$29  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$31  = \$27  & (* src = "integration_2.py:61" *) \$29 ;
-  assign \$34  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$36  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$38  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$40  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$46  = \$42  | (* src = "integration_2.py:74" *) \$44 ;
-  assign \$48  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$50  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$52  = \$48  & (* src = "integration_2.py:79" *) \$50 ;
+  wire valid_out;
+  assign \$9  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$15  = \$11  & (* src = "integration_2.py:62" *) \$13 ;
+  assign \$17  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$19  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$21  = \$17  | (* src = "integration_2.py:61" *) \$19 ;
+  assign \$23  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$25  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$29  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$31  = \$27  & (* src = "integration_2.py:62" *) \$29 ;
+  assign \$34  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$36  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$38  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$40  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$46  = \$42  | (* src = "integration_2.py:75" *) \$44 ;
+  assign \$48  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$50  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$52  = \$48  & (* src = "integration_2.py:80" *) \$50 ;
   assign \$54  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$56  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$7  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$7  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -6386,323 +6712,195 @@ module top(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_output, rst
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$15 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \nready_end$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$52 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 112'h0000000000000000000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 7'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 112'h0000000000000000000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 7'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$31 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 48'h000000000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 6'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = \$54 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = \$56 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$33 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \nready_reset_counter$next  = \$34 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$36 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$46 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$4  = 12'h000;
-    \$next\integration_1_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$5  = 12'h000;
-    \$next\integration_1_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$6  = 12'h000;
-    \$next\integration_1_pixel_in$6  = \pixel_in$3 ;
-  end
   assign \$33  = \$34 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$6  = \$next\integration_1_pixel_in$6 ;
-  assign \integration_1_pixel_in$5  = \$next\integration_1_pixel_in$5 ;
-  assign \integration_1_pixel_in$4  = \$next\integration_1_pixel_in$4 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$56 ;
+  assign enc_out = \$54 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$52 ;
+  assign \integration_1_pixel_in$6  = \pixel_in$3 ;
+  assign \integration_1_pixel_in$5  = \pixel_in$2 ;
+  assign \integration_1_pixel_in$4  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$46 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [7:0] \$23 ;
-  wire [7:0] \$24 ;
-  wire [7:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [7:0] \$32 ;
-  wire [7:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [7:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [7:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [7:0] \$51 ;
-  wire [7:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [7:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [7:0] \$66 ;
-  wire [7:0] \$67 ;
-  wire [7:0] \$7 ;
-  wire [7:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [6:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [119:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [6:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [6:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [6:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [6:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [119:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [6:0] consume = 7'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [119:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [119:0] dout;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [6:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [6:0] level;
   reg [6:0] level = 7'h00;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [6:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [6:0] produce = 7'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [6:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [119:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [6:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [119:0] r_data;
+  wire [119:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [6:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [119:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 8'h7e : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 8'h00 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 7'h7f;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 8'h00 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [6:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [119:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [6:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [119:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [119:0] w_data;
+  wire [119:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [119:0] storage [126:0];
   initial begin
     storage[0] = 120'h000000000000000000000000000000;
@@ -6833,238 +7031,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[125] = 120'h000000000000000000000000000000;
     storage[126] = 120'h000000000000000000000000000000;
   end
-  reg [119:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
+  reg [119:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 7'h7f;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [6:0];
+          \level$next  = \$35 [6:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [6:0];
+          \level$next  = \$46 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 7'h00;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 7'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [6:0];
+          \level$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 120'h000000000000000000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [6:0];
+          \produce$next  = \$13 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 7'h00;
+          \produce$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 7'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 120'h000000000000000000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [6:0];
+          \consume$next  = \$22 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 7'h00;
-    endcase
-  end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+          \consume$next  = 7'h00;
+    endcase
+  end
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$12 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$9 (clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [8:0] \$23 ;
-  wire [8:0] \$24 ;
-  wire [8:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [8:0] \$32 ;
-  wire [8:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [8:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [8:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [8:0] \$51 ;
-  wire [8:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [8:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [8:0] \$66 ;
-  wire [8:0] \$67 ;
-  wire [8:0] \$7 ;
-  wire [8:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [7:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [54:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [7:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [7:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [7:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [54:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [8:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [8:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [7:0] consume = 8'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [54:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [54:0] dout;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [7:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [7:0] level;
   reg [7:0] level = 8'h00;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [7:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [7:0] produce = 8'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [7:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [54:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [7:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [54:0] r_data;
+  wire [54:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [7:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [54:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 9'h0fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 8'hfe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 9'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 8'hff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 8'hfe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 9'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [7:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [54:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [7:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [54:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [54:0] w_data;
+  wire [54:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [54:0] storage [254:0];
   initial begin
     storage[0] = 55'h00000000000000;
@@ -7323,97 +7495,106 @@ module \unbuffered$12 (we, replace, re, rst, clk, writable, readable, dout, leve
     storage[253] = 55'h00000000000000;
     storage[254] = 55'h00000000000000;
   end
-  reg [54:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
+  reg [54:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 8'hfe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 9'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 8'hfe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 9'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 8'hff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [7:0];
+          \level$next  = \$35 [7:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [7:0];
+          \level$next  = \$46 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 8'h00;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 8'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [7:0];
+          \level$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 55'h00000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [7:0];
+          \produce$next  = \$13 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 8'h00;
+          \produce$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 8'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 55'h00000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [7:0];
+          \consume$next  = \$22 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 8'h00;
-    endcase
-  end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+          \consume$next  = 8'h00;
+    endcase
+  end
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
diff --git a/verilog_src/integration_3.v b/verilog_src/integration_3.v
index 0938b17..05e2b33 100644
--- a/verilog_src/integration_3.v
+++ b/verilog_src/integration_3.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge.U$$0" *)
+module \U$$0$5 (clk, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.U$$1" *)
+module \U$$1 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,197 +947,292 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -660,190 +1249,435 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$10 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [6:0] \$1 ;
-  wire [118:0] \$3 ;
-  wire [118:0] \$4 ;
-  wire [118:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.U$$1" *)
+module \U$$1$2 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$150  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "merge.py:43" *)
-  input [55:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [55:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [5:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [5:0] enc_in_ctr2;
-  (* init = 112'h0000000000000000000000000000 *)
-  (* src = "merge.py:49" *)
-  output [111:0] enc_out;
-  reg [111:0] enc_out = 112'h0000000000000000000000000000;
-  (* init = 7'h00 *)
-  (* src = "merge.py:50" *)
-  output [6:0] enc_out_ctr;
-  reg [6:0] enc_out_ctr = 7'h00;
-  (* src = "merge.py:57" *)
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
   reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge.U$$1" *)
+module \U$$1$6 (clk, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$151  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "merge.py:54" *)
-  output valid_out;
   reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
   assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
   assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
   assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
+    enc_out_ctr <= \enc_out_ctr$next ;
   always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out_ctr  = \$1 ;
+          \enc_out_ctr$next  = \$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 7'h00;
+          \enc_out_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out  = \$3 [111:0];
+          \enc_out$next  = \$6 [55:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 112'h0000000000000000000000000000;
+          \enc_out$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$3  = \$6 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.U$$2" *)
+module \U$$2 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$152  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -881,197 +1715,292 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -1088,119 +2017,465 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
-  wire \$1 ;
-  wire [13:0] \$11 ;
-  wire [13:0] \$12 ;
-  wire [13:0] \$14 ;
-  wire [13:0] \$15 ;
-  wire [13:0] \$17 ;
-  wire [13:0] \$18 ;
-  wire \$20 ;
-  wire \$22 ;
-  wire [13:0] \$24 ;
-  wire [13:0] \$25 ;
-  wire [13:0] \$27 ;
-  wire [13:0] \$28 ;
-  wire \$3 ;
-  wire [13:0] \$30 ;
-  wire [13:0] \$31 ;
-  wire \$33 ;
-  wire \$35 ;
-  wire \$37 ;
-  wire [13:0] \$39 ;
-  wire [13:0] \$40 ;
-  wire [13:0] \$42 ;
-  wire [13:0] \$43 ;
-  wire [13:0] \$45 ;
-  wire [13:0] \$46 ;
-  wire \$48 ;
-  wire \$5 ;
-  wire \$50 ;
-  wire [13:0] \$52 ;
-  wire [13:0] \$53 ;
-  wire [13:0] \$55 ;
-  wire [13:0] \$56 ;
-  wire [13:0] \$58 ;
-  wire [13:0] \$59 ;
-  wire \$61 ;
-  wire \$63 ;
-  wire \$65 ;
-  wire \$67 ;
-  wire \$69 ;
-  wire \$7 ;
-  wire \$71 ;
-  wire \$73 ;
-  wire \$75 ;
-  wire \$77 ;
-  wire \$79 ;
-  wire \$81 ;
-  wire \$83 ;
-  wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.U$$2" *)
+module \U$$2$3 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$153  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "normalize.py:132" *)
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:133" *)
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
-  (* src = "normalize.py:126" *)
-  output [4:0] ssss;
-  reg [4:0] ssss = 5'h00;
-  (* src = "normalize.py:119" *)
-  input [12:0] val_in;
-  (* src = "normalize.py:121" *)
-  input [12:0] val_in_mns;
-  (* init = 12'h000 *)
-  (* src = "normalize.py:124" *)
-  output [11:0] val_out;
-  reg [11:0] val_out = 12'h000;
-  (* src = "normalize.py:128" *)
-  input valid;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:129" *)
-  reg valid_o = 1'h0;
-  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
-  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
-  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
-  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
-  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
-  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
-  assign \$22  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
-  assign \$25  = val_in + (* src = "normalize.py:67" *) 4'hf;
-  assign \$28  = val_in + (* src = "normalize.py:72" *) 5'h1f;
-  assign \$31  = val_in + (* src = "normalize.py:58" *) 6'h3f;
-  assign \$33  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
-  assign \$35  = val_in_mns[12:8] == (* src = "normalize.py:81" *) 5'h1f;
-  assign \$37  = val_in_mns[12:7] == (* src = "normalize.py:65" *) 6'h3f;
-  assign \$3  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
-  assign \$40  = val_in + (* src = "normalize.py:67" *) 7'h7f;
-  assign \$43  = val_in + (* src = "normalize.py:72" *) 8'hff;
-  assign \$46  = val_in + (* src = "normalize.py:58" *) 9'h1ff;
-  assign \$48  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
-  assign \$50  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
-  assign \$53  = val_in + (* src = "normalize.py:67" *) 10'h3ff;
-  assign \$56  = val_in + (* src = "normalize.py:72" *) 11'h7ff;
-  assign \$5  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
-  assign \$59  = val_in + (* src = "normalize.py:58" *) 12'hfff;
-  assign \$61  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
-  assign \$63  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
-  assign \$65  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
-  assign \$67  = val_in_mns[12:2] == (* src = "normalize.py:81" *) 11'h7ff;
-  assign \$69  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge.U$$2" *)
+module \U$$2$7 (clk, enc_in1, enc_in_ctr1, enc_in2, enc_in_ctr2, valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$154  = 0;
+  (* src = "merge.py:74" *)
+  wire [6:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [55:0] enc_in1;
+  wire [55:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [55:0] enc_in2;
+  wire [55:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [5:0] enc_in_ctr1;
+  wire [5:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [5:0] enc_in_ctr2;
+  wire [5:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [111:0] enc_out;
+  reg [111:0] enc_out = 112'h0000000000000000000000000000;
+  (* src = "merge.py:49" *)
+  reg [111:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [6:0] enc_out_ctr;
+  reg [6:0] enc_out_ctr = 7'h00;
+  (* src = "merge.py:50" *)
+  reg [6:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 7'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [111:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 112'h0000000000000000000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize.U$$3" *)
+module \U$$3 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$155  = 0;
+  (* src = "normalize.py:156" *)
+  wire \$1 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
+  wire \$20 ;
+  (* src = "normalize.py:65" *)
+  wire \$22 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
+  wire \$3 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
+  wire \$33 ;
+  (* src = "normalize.py:81" *)
+  wire \$35 ;
+  (* src = "normalize.py:65" *)
+  wire \$37 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
+  wire \$48 ;
+  (* src = "normalize.py:81" *)
+  wire \$5 ;
+  (* src = "normalize.py:65" *)
+  wire \$50 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
+  wire \$61 ;
+  (* src = "normalize.py:81" *)
+  wire \$63 ;
+  (* src = "normalize.py:81" *)
+  wire \$65 ;
+  (* src = "normalize.py:81" *)
+  wire \$67 ;
+  (* src = "normalize.py:65" *)
+  wire \$69 ;
+  (* src = "normalize.py:81" *)
+  wire \$7 ;
+  (* src = "normalize.py:81" *)
+  wire \$71 ;
+  (* src = "normalize.py:65" *)
+  wire \$73 ;
+  (* src = "normalize.py:81" *)
+  wire \$75 ;
+  (* src = "normalize.py:81" *)
+  wire \$77 ;
+  (* src = "normalize.py:65" *)
+  wire \$79 ;
+  (* src = "normalize.py:81" *)
+  wire \$81 ;
+  (* src = "normalize.py:65" *)
+  wire \$83 ;
+  (* src = "normalize.py:65" *)
+  wire \$9 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "normalize.py:132" *)
+  input end_in;
+  wire end_in;
+  (* src = "normalize.py:133" *)
+  reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "normalize.py:126" *)
+  output [4:0] ssss;
+  reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
+  (* src = "normalize.py:119" *)
+  input [12:0] val_in;
+  wire [12:0] val_in;
+  (* src = "normalize.py:121" *)
+  input [12:0] val_in_mns;
+  wire [12:0] val_in_mns;
+  (* src = "normalize.py:124" *)
+  output [11:0] val_out;
+  reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
+  (* src = "normalize.py:128" *)
+  input valid;
+  wire valid;
+  (* src = "normalize.py:129" *)
+  reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
+  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
+  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
+  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
+  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
+  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
+  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
+  assign \$22  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
+  assign \$25  = val_in + (* src = "normalize.py:67" *) 4'hf;
+  assign \$28  = val_in + (* src = "normalize.py:72" *) 5'h1f;
+  assign \$31  = val_in + (* src = "normalize.py:58" *) 6'h3f;
+  assign \$33  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
+  assign \$35  = val_in_mns[12:8] == (* src = "normalize.py:81" *) 5'h1f;
+  assign \$37  = val_in_mns[12:7] == (* src = "normalize.py:65" *) 6'h3f;
+  assign \$3  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
+  assign \$40  = val_in + (* src = "normalize.py:67" *) 7'h7f;
+  assign \$43  = val_in + (* src = "normalize.py:72" *) 8'hff;
+  assign \$46  = val_in + (* src = "normalize.py:58" *) 9'h1ff;
+  assign \$48  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
+  assign \$50  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
+  assign \$53  = val_in + (* src = "normalize.py:67" *) 10'h3ff;
+  assign \$56  = val_in + (* src = "normalize.py:72" *) 11'h7ff;
+  assign \$5  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
+  assign \$59  = val_in + (* src = "normalize.py:58" *) 12'hfff;
+  assign \$61  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
+  assign \$63  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
+  assign \$65  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
+  assign \$67  = val_in_mns[12:2] == (* src = "normalize.py:81" *) 11'h7ff;
+  assign \$69  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$71  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
   assign \$73  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
   assign \$75  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
@@ -1210,197 +2485,292 @@ module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -1417,977 +2787,331 @@ module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$4 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.U$$3" *)
+module \U$$3$4 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$156  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$5 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$6 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
   (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$7 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
   (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$8 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out_ctr  = 6'h00;
-    endcase
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 56'h00000000000000;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  assign \$3  = \$6 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$9 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
-  always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
+          \end_late$next  = 1'h0;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 6'h00;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\enc_out  = \$3 [55:0];
+          \ssss_late$next  = 5'h00;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 56'h00000000000000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
-  assign \$3  = \$6 ;
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.integration_2.converter" *)
+module converter(enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, rst, clk, latch_output);
+  reg \$auto$verilog_backend.cc:2184:dump_module$157  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:199" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:113" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:121" *)
   wire \$41 ;
+  (* src = "converter.py:158" *)
   wire \$43 ;
+  (* src = "converter.py:192" *)
   wire \$45 ;
+  (* src = "converter.py:199" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [47:0] \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:158" *)
   wire \$51 ;
+  (* src = "converter.py:192" *)
   wire \$53 ;
+  (* src = "converter.py:199" *)
   wire \$55 ;
+  (* src = "converter.py:195" *)
   wire [7:0] \$57 ;
+  (* src = "converter.py:195" *)
   wire [7:0] \$58 ;
+  (* src = "converter.py:202" *)
   wire [7:0] \$60 ;
+  (* src = "converter.py:202" *)
   wire [7:0] \$61 ;
+  (* src = "converter.py:158" *)
   wire \$63 ;
+  (* src = "converter.py:158" *)
   wire \$65 ;
+  (* src = "converter.py:158" *)
   wire \$67 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [47:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [5:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [6:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [95:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [111:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 48'h000000000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [47:0] enc_in;
   reg [47:0] enc_in = 48'h000000000000;
-  (* init = 6'h00 *)
+  (* src = "converter.py:66" *)
+  reg [47:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [5:0] enc_in_ctr;
   reg [5:0] enc_in_ctr = 6'h00;
+  (* src = "converter.py:67" *)
+  reg [5:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [111:0] enc_out;
+  wire [111:0] enc_out;
   (* src = "converter.py:61" *)
   input [6:0] enc_out_ctr;
-  (* init = 7'h00 *)
+  wire [6:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [6:0] enc_out_ctr_reg = 7'h00;
-  (* init = 96'h000000000000000000000000 *)
+  (* src = "converter.py:95" *)
+  reg [6:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [95:0] enc_out_latch = 96'h000000000000000000000000;
-  (* init = 112'h0000000000000000000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [95:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [111:0] enc_out_reg = 112'h0000000000000000000000000000;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [111:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [2:0] fsm_state = 3'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -2410,7 +3134,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$45  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[111:96];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[111:96];
   assign \$51  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$53  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
   assign \$55  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
@@ -2422,944 +3146,1132 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$67  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$65 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[95:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[95:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 96'h000000000000000000000000;
+          \enc_out_latch$next  = 96'h000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$67 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
-            2'hz:
-                \$next\fsm_state  = 3'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\fsm_state  = 3'h1;
+          \fsm_state$next  = 3'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 3'h0;
+                            \fsm_state$next  = 3'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez ({ \$33 , \$31  })
-                        2'bz1:
-                            \$next\fsm_state  = 3'h3;
-                        2'b1z:
-                            \$next\fsm_state  = 3'h4;
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \fsm_state$next  = 3'h3;
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \fsm_state$next  = 3'h4;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$41 , \$37  })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
-            2'hz:
-                \$next\fsm_state  = 3'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\fsm_state  = 3'h3;
+          \fsm_state$next  = 3'h3;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 112'h0000000000000000000000000000;
+          \enc_out_reg$next  = 112'h0000000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 7'h00;
+          \enc_out_ctr_reg$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$43 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[47:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[47:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez ({ \$47 , \$45  })
-                        2'bz1:
-                            \$next\enc_in  = enc_out_reg[95:48];
-                        2'b1z:
-                            \$next\enc_in  = \$49 ;
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \enc_in$next  = enc_out_reg[95:48];
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \enc_in$next  = \$49 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\enc_in  = enc_out_latch[47:0];
+          \enc_in$next  = enc_out_latch[47:0];
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\enc_in  = enc_out_latch[95:48];
+          \enc_in$next  = enc_out_latch[95:48];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 48'h000000000000;
+          \enc_in$next  = 48'h000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$51 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[5:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[5:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 6'h30;
+                      \enc_in_ctr$next  = 6'h30;
+                      (* src = "converter.py:192" *)
                       casez ({ \$55 , \$53  })
-                        2'bz1:
-                            \$next\enc_in_ctr  = \$57 [5:0];
-                        2'b1z:
-                            \$next\enc_in_ctr  = \$60 [5:0];
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \enc_in_ctr$next  = \$58 [5:0];
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \enc_in_ctr$next  = \$61 [5:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\enc_in_ctr  = 6'h30;
+          \enc_in_ctr$next  = 6'h30;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\enc_in_ctr  = 6'h30;
+          \enc_in_ctr$next  = 6'h30;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 6'h00;
+          \enc_in_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$63 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$57  = \$58 ;
   assign \$60  = \$61 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.integration_2.converter_fifo" *)
+module converter_fifo(enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, rst, clk, enc_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$158  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [47:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [54:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [47:0] enc_in;
+  wire [47:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [47:0] enc_out;
+  wire [47:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [54:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [54:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [8:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [54:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [54:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 8'hfa;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$11  fifo (
+    close_full <= \close_full$next ;
+  \fifo$8  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 55'h00000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 48'h000000000000;
-    \$next\enc_out  = fifo_dout[47:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[53:48];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[54];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[54];
+  assign enc_out_ctr = fifo_r_data[53:48];
+  assign enc_out = fifo_r_data[47:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , \pixel_in$3 , \predic_in$4 , \pixel_in$5 , \predic_in$6 , end_in, rst, clk, val_out, \val_out$7 , \val_out$8 , \val_out$9 , \val_out$10 , \val_out$11 , \val_out$12 , \val_out$13 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.difference" *)
+module difference(clk, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , predic_in, \predic_in$4 , \predic_in$5 , \predic_in$6 , valid_in, end_in, val_out, \val_out$7 , \val_out$8 , \val_out$9 , \val_out$10 , \val_out$11 , \val_out$12 , \val_out$13 , valid_out, end_out
+, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$159  = 0;
+  (* src = "difference.py:91" *)
   wire [12:0] \$14 ;
-  wire [12:0] \$16 ;
-  wire [12:0] \$18 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$16 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$17 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$20 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$22 ;
-  wire [12:0] \$23 ;
-  wire [13:0] \$25 ;
-  wire [13:0] \$27 ;
-  wire [12:0] \$28 ;
-  wire [13:0] \$30 ;
-  wire [13:0] \$32 ;
-  wire [12:0] \$33 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$23 ;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$26 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$28 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$29 ;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$32 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$34 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$35 ;
-  wire [13:0] \$37 ;
-  wire [12:0] \$38 ;
-  wire [13:0] \$40 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$10 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$11 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$12 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$13 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$7 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$8 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$9 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$19 ;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$25 ;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$31 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:55" *)
-  input [11:0] \pixel_in$3 ;
+  input [11:0] \pixel_in$2 ;
+  wire [11:0] \pixel_in$2 ;
   (* src = "difference.py:55" *)
-  input [11:0] \pixel_in$5 ;
+  input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
-  (* src = "difference.py:58" *)
-  input [11:0] \predic_in$2 ;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$4 ;
+  wire [11:0] \predic_in$4 ;
+  (* src = "difference.py:58" *)
+  input [11:0] \predic_in$5 ;
+  wire [11:0] \predic_in$5 ;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$6 ;
+  wire [11:0] \predic_in$6 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:64" *)
   output [12:0] \val_out$10 ;
   reg [12:0] \val_out$10  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$10$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$11 ;
   reg [12:0] \val_out$11  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$11$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$12 ;
   reg [12:0] \val_out$12  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$12$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$13 ;
   reg [12:0] \val_out$13  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$13$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$7 ;
   reg [12:0] \val_out$7  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$7$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$8 ;
   reg [12:0] \val_out$8  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$8$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$9 ;
   reg [12:0] \val_out$9  = 13'h0000;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$9$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$14  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
-  assign \$18  = \pixel_in$3  - (* src = "difference.py:89" *) \predic_in$4 ;
-  assign \$20  = \pixel_in$5  - (* src = "difference.py:89" *) \predic_in$6 ;
-  assign \$23  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$25  = \$23  - (* src = "difference.py:90" *) 1'h1;
-  assign \$28  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$30  = \$28  - (* src = "difference.py:90" *) 1'h1;
-  assign \$33  = \pixel_in$3  - (* src = "difference.py:90" *) \predic_in$4 ;
-  assign \$35  = \$33  - (* src = "difference.py:90" *) 1'h1;
-  assign \$38  = \pixel_in$5  - (* src = "difference.py:90" *) \predic_in$6 ;
-  assign \$40  = \$38  - (* src = "difference.py:90" *) 1'h1;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$14  = pixel_in - (* src = "difference.py:91" *) predic_in;
+  assign \$17  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$20  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$4 ;
+  assign \$23  = \diff$19  - (* src = "difference.py:98" *) 1'h1;
+  assign \$26  = \pixel_in$2  - (* src = "difference.py:91" *) \predic_in$5 ;
+  assign \$29  = \diff$25  - (* src = "difference.py:98" *) 1'h1;
+  assign \$32  = \pixel_in$3  - (* src = "difference.py:91" *) \predic_in$6 ;
+  assign \$35  = \diff$31  - (* src = "difference.py:98" *) 1'h1;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$13  <= \$next\val_out$13 ;
+    \val_out$13  <= \val_out$13$next ;
   always @(posedge clk)
-      \val_out$12  <= \$next\val_out$12 ;
+    \val_out$9  <= \val_out$9$next ;
   always @(posedge clk)
-      \val_out$11  <= \$next\val_out$11 ;
+    \val_out$12  <= \val_out$12$next ;
   always @(posedge clk)
-      \val_out$10  <= \$next\val_out$10 ;
+    \val_out$8  <= \val_out$8$next ;
   always @(posedge clk)
-      \val_out$9  <= \$next\val_out$9 ;
+    \val_out$11  <= \val_out$11$next ;
   always @(posedge clk)
-      \val_out$8  <= \$next\val_out$8 ;
+    \val_out$7  <= \val_out$7$next ;
   always @(posedge clk)
-      \val_out$7  <= \$next\val_out$7 ;
+    \val_out$10  <= \val_out$10$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$14 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$14 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$7  = \val_out$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$9$next  = \val_out$9 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$7  = \$16 ;
+          \val_out$9$next  = \diff$31 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$7  = 13'h0000;
+          \val_out$9$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$8  = \val_out$8 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$13$next  = \val_out$13 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$8  = \$18 ;
+          \val_out$13$next  = \$35 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$8  = 13'h0000;
+          \val_out$13$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$9  = \val_out$9 ;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\val_out$9  = \$20 ;
+          \valid_out$next  = 1'h0;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$9  = 13'h0000;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\val_out$10  = \val_out$10 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$10$next  = \val_out$10 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$10  = \$22 [12:0];
+          \val_out$10$next  = \$17 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$10  = 13'h0000;
+          \val_out$10$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \diff$19  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$19  = \$20 ;
     endcase
   end
   always @* begin
-    \$next\val_out$11  = \val_out$11 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$7$next  = \val_out$7 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$11  = \$27 [12:0];
+          \val_out$7$next  = \diff$19 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$11  = 13'h0000;
+          \val_out$7$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$12  = \val_out$12 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$11$next  = \val_out$11 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$12  = \$32 [12:0];
+          \val_out$11$next  = \$23 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$12  = 13'h0000;
+          \val_out$11$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \diff$25  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$25  = \$26 ;
     endcase
   end
   always @* begin
-    \$next\val_out$13  = \val_out$13 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$8$next  = \val_out$8 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$13  = \$37 [12:0];
+          \val_out$8$next  = \diff$25 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$13  = 13'h0000;
+          \val_out$8$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$12$next  = \val_out$12 ;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \val_out$12$next  = \$29 [12:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \val_out$12$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \diff$31  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\end_out  = 1'h0;
+          \diff$31  = \$32 ;
     endcase
   end
-  assign \$22  = \$25 ;
-  assign \$27  = \$30 ;
-  assign \$32  = \$35 ;
-  assign \$37  = \$40 ;
+  assign \$16  = \$17 ;
+  assign \$22  = \$23 ;
+  assign \$28  = \$29 ;
+  assign \$34  = \$35 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , \val_in$3 , \ssss$4 , \val_in$5 , \ssss$6 , rst, clk, enc_out, enc_ctr, \enc_out$7 , \enc_ctr$8 , \enc_out$9 , \enc_ctr$10 , \enc_out$11 , \enc_ctr$12 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$10 ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$12 ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$8 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$11 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$7 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$9 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$14 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$23 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$32 ;
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.encode" *)
+module encode(clk, val_in, \val_in$1 , \val_in$2 , \val_in$3 , ssss, \ssss$4 , \ssss$5 , \ssss$6 , valid_in, end_in, enc_out, \enc_out$7 , \enc_out$8 , \enc_out$9 , enc_ctr, \enc_ctr$10 , \enc_ctr$11 , \enc_ctr$12 , valid_out, end_out
+, rst);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$41 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$51 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$54 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$57 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$26 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$35 ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$44 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$15 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$24 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$33 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$42 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$16 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$25 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$34 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$43 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$13 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$22 ;
+  wire \U$$1_valid_in ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$2_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$2_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$2_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$2_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$2_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$2_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$2_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$31 ;
+  wire \U$$2_valid_in ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$3_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$3_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$3_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$3_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$3_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$3_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$3_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$40 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$3_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$10 ;
+  wire [4:0] \enc_ctr$10 ;
   (* src = "encode.py:184" *)
-  output [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$20 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$29 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$38 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$47 ;
+  output [4:0] \enc_ctr$11 ;
+  wire [4:0] \enc_ctr$11 ;
   (* src = "encode.py:184" *)
-  output [4:0] \enc_ctr$8 ;
+  output [4:0] \enc_ctr$12 ;
+  wire [4:0] \enc_ctr$12 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:182" *)
-  output [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$19 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$28 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$37 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$46 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$7 ;
+  wire [27:0] \enc_out$7 ;
+  (* src = "encode.py:182" *)
+  output [27:0] \enc_out$8 ;
+  wire [27:0] \enc_out$8 ;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$9 ;
+  wire [27:0] \enc_out$9 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$14 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$23 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$32 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$41 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$18 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$51 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$54 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$57 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$14 ;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$16 ;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$18 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$52 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$55 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$58 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$27 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$36 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$45 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$26 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$35 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$44 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$15 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$17 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$19 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$15 ;
-  (* src = "encode.py:179" *)
-  input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$24 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$33 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$4 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$42 ;
+  wire [4:0] \ssss$4 ;
+  (* src = "encode.py:179" *)
+  input [4:0] \ssss$5 ;
+  wire [4:0] \ssss$5 ;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$6 ;
-  (* src = "encode.py:177" *)
-  input [11:0] val_in;
-  (* src = "encode.py:177" *)
-  input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$16 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$25 ;
-  (* src = "encode.py:177" *)
-  input [11:0] \val_in$3 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$34 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$43 ;
-  (* src = "encode.py:177" *)
-  input [11:0] \val_in$5 ;
-  (* src = "encode.py:187" *)
-  input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$13 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$22 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$31 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$40 ;
-  (* src = "encode.py:188" *)
-  output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$17 ;
-  \anonymous$4  \$21  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$20 ),
-    .enc_out(\enc_out$19 ),
-    .end_in(\end_in$14 ),
-    .end_out(\end_out$18 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$15 ),
-    .val_in(\val_in$16 ),
-    .valid_in(\valid_in$13 ),
-    .valid_out(\valid_out$17 )
-  );
-  \anonymous$5  \$30  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$29 ),
-    .enc_out(\enc_out$28 ),
-    .end_in(\end_in$23 ),
-    .rp_addr(\rp_addr$27 ),
-    .rp_data(\rp_data$26 ),
-    .rst(rst),
-    .ssss(\ssss$24 ),
-    .val_in(\val_in$25 ),
-    .valid_in(\valid_in$22 )
-  );
-  \anonymous$6  \$39  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$38 ),
-    .enc_out(\enc_out$37 ),
-    .end_in(\end_in$32 ),
-    .rp_addr(\rp_addr$36 ),
-    .rp_data(\rp_data$35 ),
-    .rst(rst),
-    .ssss(\ssss$33 ),
-    .val_in(\val_in$34 ),
-    .valid_in(\valid_in$31 )
-  );
-  \anonymous$7  \$48  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$47 ),
-    .enc_out(\enc_out$46 ),
-    .end_in(\end_in$41 ),
-    .rp_addr(\rp_addr$45 ),
-    .rp_data(\rp_data$44 ),
-    .rst(rst),
-    .ssss(\ssss$42 ),
-    .val_in(\val_in$43 ),
-    .valid_in(\valid_in$40 )
-  );
+  wire [4:0] \ssss$6 ;
+  (* src = "encode.py:177" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:177" *)
+  input [11:0] \val_in$1 ;
+  wire [11:0] \val_in$1 ;
+  (* src = "encode.py:177" *)
+  input [11:0] \val_in$2 ;
+  wire [11:0] \val_in$2 ;
+  (* src = "encode.py:177" *)
+  input [11:0] \val_in$3 ;
+  wire [11:0] \val_in$3 ;
+  (* src = "encode.py:187" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:188" *)
+  output valid_out;
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -3376,692 +4288,599 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , \val_in$3 , \ssss$4
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
-  reg [3:0] _2_;
-  reg [3:0] _3_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
+  reg [32:0] _2_;
+  reg [32:0] _3_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr ;
-    _1_ <= \$next\mem_r_addr$51 ;
-    _2_ <= \$next\mem_r_addr$54 ;
-    _3_ <= \$next\mem_r_addr$57 ;
-  end
-  assign mem_r_data = mem[_0_];
-  assign \mem_r_data$52  = mem[_1_];
-  assign \mem_r_data$55  = mem[_2_];
-  assign \mem_r_data$58  = mem[_3_];
-  always @* begin
-    \$next\val_in$16  = 12'h000;
-    \$next\val_in$16  = val_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$22  = 1'h0;
-    \$next\valid_in$22  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$24  = 5'h00;
-    \$next\ssss$24  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$51  = 4'h0;
-    \$next\mem_r_addr$51  = \rp_addr$27 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$26  = 33'h000000000;
-    \$next\rp_data$26  = \mem_r_data$52 ;
-  end
-  always @* begin
-    \$next\enc_out$7  = 28'h0000000;
-    \$next\enc_out$7  = \enc_out$28 ;
-  end
-  always @* begin
-    \$next\enc_ctr$8  = 5'h00;
-    \$next\enc_ctr$8  = \enc_ctr$29 ;
-  end
-  always @* begin
-    \$next\val_in$34  = 12'h000;
-    \$next\val_in$34  = \val_in$3 ;
-  end
-  always @* begin
-    \$next\end_in$32  = 1'h0;
-    \$next\end_in$32  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$31  = 1'h0;
-    \$next\valid_in$31  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$33  = 5'h00;
-    \$next\ssss$33  = \ssss$4 ;
-  end
-  always @* begin
-    \$next\valid_in$13  = 1'h0;
-    \$next\valid_in$13  = valid_in;
-  end
-  always @* begin
-    \$next\mem_r_addr$54  = 4'h0;
-    \$next\mem_r_addr$54  = \rp_addr$36 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$35  = 33'h000000000;
-    \$next\rp_data$35  = \mem_r_data$55 ;
-  end
-  always @* begin
-    \$next\enc_out$9  = 28'h0000000;
-    \$next\enc_out$9  = \enc_out$37 ;
-  end
-  always @* begin
-    \$next\enc_ctr$10  = 5'h00;
-    \$next\enc_ctr$10  = \enc_ctr$38 ;
-  end
-  always @* begin
-    \$next\val_in$43  = 12'h000;
-    \$next\val_in$43  = \val_in$5 ;
-  end
-  always @* begin
-    \$next\end_in$41  = 1'h0;
-    \$next\end_in$41  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$40  = 1'h0;
-    \$next\valid_in$40  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$42  = 5'h00;
-    \$next\ssss$42  = \ssss$6 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$57  = 4'h0;
-    \$next\mem_r_addr$57  = \rp_addr$45 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$44  = 33'h000000000;
-    \$next\rp_data$44  = \mem_r_data$58 ;
-  end
-  always @* begin
-    \$next\ssss$15  = 5'h00;
-    \$next\ssss$15  = ssss;
-  end
-  always @* begin
-    \$next\enc_out$11  = 28'h0000000;
-    \$next\enc_out$11  = \enc_out$46 ;
-  end
-  always @* begin
-    \$next\enc_ctr$12  = 5'h00;
-    \$next\enc_ctr$12  = \enc_ctr$47 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$17 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$18 ;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$19 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$20 ;
-  end
-  always @* begin
-    \$next\val_in$25  = 12'h000;
-    \$next\val_in$25  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$23  = 1'h0;
-    \$next\end_in$23  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$12  = \$next\enc_ctr$12 ;
-  assign \enc_out$11  = \$next\enc_out$11 ;
-  assign \rp_data$44  = \$next\rp_data$44 ;
-  assign \mem_r_addr$57  = \$next\mem_r_addr$57 ;
-  assign \ssss$42  = \$next\ssss$42 ;
-  assign \valid_in$40  = \$next\valid_in$40 ;
-  assign \end_in$41  = \$next\end_in$41 ;
-  assign \val_in$43  = \$next\val_in$43 ;
-  assign \enc_ctr$10  = \$next\enc_ctr$10 ;
-  assign \enc_out$9  = \$next\enc_out$9 ;
-  assign \rp_data$35  = \$next\rp_data$35 ;
-  assign \mem_r_addr$54  = \$next\mem_r_addr$54 ;
-  assign \ssss$33  = \$next\ssss$33 ;
-  assign \valid_in$31  = \$next\valid_in$31 ;
-  assign \end_in$32  = \$next\end_in$32 ;
-  assign \val_in$34  = \$next\val_in$34 ;
-  assign \enc_ctr$8  = \$next\enc_ctr$8 ;
-  assign \enc_out$7  = \$next\enc_out$7 ;
-  assign \rp_data$26  = \$next\rp_data$26 ;
-  assign \mem_r_addr$51  = \$next\mem_r_addr$51 ;
-  assign \ssss$24  = \$next\ssss$24 ;
-  assign \valid_in$22  = \$next\valid_in$22 ;
-  assign \end_in$23  = \$next\end_in$23 ;
-  assign \val_in$25  = \$next\val_in$25 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$15  = \$next\ssss$15 ;
-  assign \valid_in$13  = \$next\valid_in$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \val_in$16  = \$next\val_in$16 ;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$14 ];
+    _2_ <= mem[\mem_r_addr$16 ];
+    _3_ <= mem[\mem_r_addr$18 ];
+  end
+  assign mem_r_data = _0_;
+  assign \mem_r_data$15  = _1_;
+  assign \mem_r_data$17  = _2_;
+  assign \mem_r_data$19  = _3_;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  \U$$2$3  \U$$2  (
+    .clk(clk),
+    .enc_ctr(\U$$2_enc_ctr ),
+    .enc_out(\U$$2_enc_out ),
+    .end_in(\U$$2_end_in ),
+    .rp_addr(\U$$2_rp_addr ),
+    .rp_data(\U$$2_rp_data ),
+    .rst(rst),
+    .ssss(\U$$2_ssss ),
+    .val_in(\U$$2_val_in ),
+    .valid_in(\U$$2_valid_in )
+  );
+  \U$$3$4  \U$$3  (
+    .clk(clk),
+    .enc_ctr(\U$$3_enc_ctr ),
+    .enc_out(\U$$3_enc_out ),
+    .end_in(\U$$3_end_in ),
+    .rp_addr(\U$$3_rp_addr ),
+    .rp_data(\U$$3_rp_data ),
+    .rst(rst),
+    .ssss(\U$$3_ssss ),
+    .val_in(\U$$3_val_in ),
+    .valid_in(\U$$3_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$12  = \U$$3_enc_ctr ;
+  assign \enc_out$9  = \U$$3_enc_out ;
+  assign \U$$3_rp_data  = \mem_r_data$19 ;
+  assign \mem_r_addr$18  = \U$$3_rp_addr [3:0];
+  assign \U$$3_ssss  = \ssss$6 ;
+  assign \U$$3_valid_in  = valid_in;
+  assign \U$$3_end_in  = end_in;
+  assign \U$$3_val_in  = \val_in$3 ;
+  assign \enc_ctr$11  = \U$$2_enc_ctr ;
+  assign \enc_out$8  = \U$$2_enc_out ;
+  assign \U$$2_rp_data  = \mem_r_data$17 ;
+  assign \mem_r_addr$16  = \U$$2_rp_addr [3:0];
+  assign \U$$2_ssss  = \ssss$5 ;
+  assign \U$$2_valid_in  = valid_in;
+  assign \U$$2_end_in  = end_in;
+  assign \U$$2_val_in  = \val_in$2 ;
+  assign \enc_ctr$10  = \U$$1_enc_ctr ;
+  assign \enc_out$7  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$15 ;
+  assign \mem_r_addr$14  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$4 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(clk, w_en, w_data, r_rdy, r_data, r_en, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$160  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [7:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [119:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [119:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [119:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [119:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [7:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [7:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [119:0] r_data;
+  wire [119:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [119:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [119:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [6:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [119:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [119:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [119:0] w_data;
+  wire [119:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 120'h000000000000000000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 120'h000000000000000000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 8'h00;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$11 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.integration_2.converter_fifo.fifo" *)
+module \fifo$8 (clk, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$161  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [8:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [54:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [54:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [54:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [54:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [8:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [8:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [54:0] r_data;
+  wire [54:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [54:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [54:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [7:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$12  unbuffered (
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [54:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [54:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [54:0] w_data;
+  wire [54:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$9  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 55'h00000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 55'h00000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 9'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.force_end" *)
+module force_end(clk, allowed_cycles, valid_in, fend, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$162  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.vbits_to_cbits.input_handler" *)
+module input_handler(clk, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$163  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [9:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [9:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [8:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [8:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [8:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [8:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [9:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [9:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [8:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [8:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [8:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [8:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [7:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [7:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [143:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [47:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [5:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [5:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [47:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [7:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [7:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 8'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [7:0] buff_consum;
   reg [7:0] buff_consum = 8'h00;
-  (* init = 8'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [7:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [7:0] buff_free = 8'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [7:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 144'h000000000000000000000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [143:0] buffer;
   reg [143:0] buffer = 144'h000000000000000000000000000000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [143:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [47:0] enc_in;
-  (* init = 48'h000000000000 *)
+  wire [47:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [47:0] enc_in_buff = 48'h000000000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [47:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [5:0] enc_in_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [5:0] enc_in_ctr_buff = 6'h00;
-  (* init = 6'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [5:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [5:0] enc_in_ctr_reg = 6'h00;
-  (* init = 48'h000000000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [5:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [47:0] enc_in_reg = 48'h000000000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [47:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [7:0] new_buff_consum;
+  reg [7:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [7:0] new_buff_free;
+  reg [7:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4092,409 +4911,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 6'h00;
+          \enc_in_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [143:0];
+          \buffer$next  = \$30 [143:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [143:0];
+                      \buffer$next  = \$37 [143:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 144'h000000000000000000000000000000000000;
+          \buffer$next  = 144'h000000000000000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    new_buff_free = 8'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [7:0];
-      1'hz:
+          new_buff_free = \$46 [7:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [7:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [7:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [7:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [7:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    new_buff_consum = 8'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [7:0];
-      1'hz:
+          new_buff_consum = \$59 [7:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [7:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [7:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [7:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [7:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 8'h00;
+          \buff_consum$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 8'h90;
+          \buff_free$next  = 8'h90;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 8'h00;
+          \buff_free$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 48'h000000000000;
+          \enc_in_buff$next  = 48'h000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 6'h00;
+          \enc_in_ctr_buff$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 48'h000000000000;
+          \enc_in_reg$next  = 48'h000000000000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -4502,135 +5590,18 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$43  = \$46 ;
   assign \$48  = \$49 ;
   assign \$51  = \$52 ;
-  assign \$56  = \$59 ;
-  assign \$61  = \$62 ;
-  assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.integration_2.integration_1" *)
-(* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, full_clk, full_rst, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, clk, fend_out, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$13 ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$15 ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$17 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$14 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$16 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$18 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$39 ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$41 ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$43 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$38 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$40 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$42 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$50 ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$52 ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$54 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$51 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$53 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$55 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$26 ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$28 ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$30 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$27 ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$29 ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$31 ;
-  (* src = "predictor_p1_c4_px4.py:79" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_px4.py:66" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$4 ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$5 ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$6 ;
-  (* src = "predictor_p1_c4_px4.py:75" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  assign \$56  = \$59 ;
+  assign \$61  = \$62 ;
+  assign \$64  = \$65 ;
+  assign buff_change = \$3 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1" *)
+module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, rst, clk, fend_out, full_clk, full_rst, end_of_frame);
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -4640,16 +5611,16 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "difference.py:55" *)
   wire [11:0] \difference_pixel_in$13 ;
   (* src = "difference.py:55" *)
-  wire [11:0] \difference_pixel_in$15 ;
+  wire [11:0] \difference_pixel_in$14 ;
   (* src = "difference.py:55" *)
-  wire [11:0] \difference_pixel_in$17 ;
+  wire [11:0] \difference_pixel_in$15 ;
   (* src = "difference.py:58" *)
   wire [11:0] difference_predic_in;
   (* src = "difference.py:58" *)
-  wire [11:0] \difference_predic_in$14 ;
-  (* src = "difference.py:58" *)
   wire [11:0] \difference_predic_in$16 ;
   (* src = "difference.py:58" *)
+  wire [11:0] \difference_predic_in$17 ;
+  (* src = "difference.py:58" *)
   wire [11:0] \difference_predic_in$18 ;
   (* src = "difference.py:61" *)
   wire [12:0] difference_val_out;
@@ -4671,26 +5642,28 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [111:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [6:0] enc_out_ctr;
+  wire [6:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
-  wire [4:0] \encode_enc_ctr$45 ;
-  (* src = "encode.py:184" *)
   wire [4:0] \encode_enc_ctr$47 ;
   (* src = "encode.py:184" *)
+  wire [4:0] \encode_enc_ctr$48 ;
+  (* src = "encode.py:184" *)
   wire [4:0] \encode_enc_ctr$49 ;
   (* src = "encode.py:182" *)
   wire [27:0] encode_enc_out;
   (* src = "encode.py:182" *)
   wire [27:0] \encode_enc_out$44 ;
   (* src = "encode.py:182" *)
-  wire [27:0] \encode_enc_out$46 ;
+  wire [27:0] \encode_enc_out$45 ;
   (* src = "encode.py:182" *)
-  wire [27:0] \encode_enc_out$48 ;
+  wire [27:0] \encode_enc_out$46 ;
   (* src = "encode.py:191" *)
   wire encode_end_in;
   (* src = "encode.py:192" *)
@@ -4698,29 +5671,32 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "encode.py:179" *)
   wire [4:0] encode_ssss;
   (* src = "encode.py:179" *)
-  wire [4:0] \encode_ssss$39 ;
-  (* src = "encode.py:179" *)
   wire [4:0] \encode_ssss$41 ;
   (* src = "encode.py:179" *)
+  wire [4:0] \encode_ssss$42 ;
+  (* src = "encode.py:179" *)
   wire [4:0] \encode_ssss$43 ;
   (* src = "encode.py:177" *)
   wire [11:0] encode_val_in;
   (* src = "encode.py:177" *)
   wire [11:0] \encode_val_in$38 ;
   (* src = "encode.py:177" *)
-  wire [11:0] \encode_val_in$40 ;
+  wire [11:0] \encode_val_in$39 ;
   (* src = "encode.py:177" *)
-  wire [11:0] \encode_val_in$42 ;
+  wire [11:0] \encode_val_in$40 ;
   (* src = "encode.py:187" *)
   wire encode_valid_in;
   (* src = "encode.py:188" *)
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -4729,23 +5705,25 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
   wire [27:0] \merge_enc_in$50 ;
   (* src = "merge.py:109" *)
-  wire [27:0] \merge_enc_in$52 ;
+  wire [27:0] \merge_enc_in$51 ;
   (* src = "merge.py:109" *)
-  wire [27:0] \merge_enc_in$54 ;
+  wire [27:0] \merge_enc_in$52 ;
   (* src = "merge.py:110" *)
   wire [4:0] merge_enc_in_ctr;
   (* src = "merge.py:110" *)
-  wire [4:0] \merge_enc_in_ctr$51 ;
-  (* src = "merge.py:110" *)
   wire [4:0] \merge_enc_in_ctr$53 ;
   (* src = "merge.py:110" *)
+  wire [4:0] \merge_enc_in_ctr$54 ;
+  (* src = "merge.py:110" *)
   wire [4:0] \merge_enc_in_ctr$55 ;
   (* src = "merge.py:112" *)
   wire [111:0] merge_enc_out;
@@ -4766,27 +5744,27 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$32 ;
-  (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$34 ;
+  wire [4:0] \normalize_ssss$35 ;
   (* src = "normalize.py:201" *)
   wire [4:0] \normalize_ssss$36 ;
+  (* src = "normalize.py:201" *)
+  wire [4:0] \normalize_ssss$37 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
   wire [12:0] \normalize_val_in$26 ;
   (* src = "normalize.py:194" *)
-  wire [12:0] \normalize_val_in$28 ;
+  wire [12:0] \normalize_val_in$27 ;
   (* src = "normalize.py:194" *)
-  wire [12:0] \normalize_val_in$30 ;
+  wire [12:0] \normalize_val_in$28 ;
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$33 ;
+  wire [11:0] \normalize_val_out$32 ;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$35 ;
+  wire [11:0] \normalize_val_out$33 ;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$37 ;
+  wire [11:0] \normalize_val_out$34 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -4794,19 +5772,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "normalize.py:196" *)
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
-  wire [12:0] \normalize_vals_in_mns$27 ;
-  (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$29 ;
   (* src = "normalize.py:196" *)
+  wire [12:0] \normalize_vals_in_mns$30 ;
+  (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$31 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "predictor_p1_c4_px4.py:79" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_px4.py:80" *)
@@ -4849,6 +5831,7 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -4857,21 +5840,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
     .end_out(difference_end_out),
     .pixel_in(difference_pixel_in),
     .\pixel_in$1 (\difference_pixel_in$13 ),
+    .\pixel_in$2 (\difference_pixel_in$14 ),
     .\pixel_in$3 (\difference_pixel_in$15 ),
-    .\pixel_in$5 (\difference_pixel_in$17 ),
     .predic_in(difference_predic_in),
-    .\predic_in$2 (\difference_predic_in$14 ),
     .\predic_in$4 (\difference_predic_in$16 ),
+    .\predic_in$5 (\difference_predic_in$17 ),
     .\predic_in$6 (\difference_predic_in$18 ),
     .rst(rst),
     .val_out(difference_val_out),
@@ -4880,502 +5865,240 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .\val_out$12 (\difference_val_out$24 ),
     .\val_out$13 (\difference_val_out$25 ),
     .\val_out$7 (\difference_val_out$19 ),
-    .\val_out$8 (\difference_val_out$20 ),
-    .\val_out$9 (\difference_val_out$21 ),
-    .valid_in(difference_valid_in),
-    .valid_out(difference_valid_out)
-  );
-  encode encode (
-    .clk(clk),
-    .enc_ctr(encode_enc_ctr),
-    .\enc_ctr$10 (\encode_enc_ctr$47 ),
-    .\enc_ctr$12 (\encode_enc_ctr$49 ),
-    .\enc_ctr$8 (\encode_enc_ctr$45 ),
-    .enc_out(encode_enc_out),
-    .\enc_out$11 (\encode_enc_out$48 ),
-    .\enc_out$7 (\encode_enc_out$44 ),
-    .\enc_out$9 (\encode_enc_out$46 ),
-    .end_in(encode_end_in),
-    .end_out(encode_end_out),
-    .rst(rst),
-    .ssss(encode_ssss),
-    .\ssss$2 (\encode_ssss$39 ),
-    .\ssss$4 (\encode_ssss$41 ),
-    .\ssss$6 (\encode_ssss$43 ),
-    .val_in(encode_val_in),
-    .\val_in$1 (\encode_val_in$38 ),
-    .\val_in$3 (\encode_val_in$40 ),
-    .\val_in$5 (\encode_val_in$42 ),
-    .valid_in(encode_valid_in),
-    .valid_out(encode_valid_out)
-  );
-  force_end force_end (
-    .allowed_cycles(force_end_allowed_cycles),
-    .clk(clk),
-    .fend(force_end_fend),
-    .rst(rst),
-    .valid_in(force_end_valid_in)
-  );
-  merge merge (
-    .clk(clk),
-    .enc_in(merge_enc_in),
-    .\enc_in$1 (\merge_enc_in$50 ),
-    .\enc_in$3 (\merge_enc_in$52 ),
-    .\enc_in$5 (\merge_enc_in$54 ),
-    .enc_in_ctr(merge_enc_in_ctr),
-    .\enc_in_ctr$2 (\merge_enc_in_ctr$51 ),
-    .\enc_in_ctr$4 (\merge_enc_in_ctr$53 ),
-    .\enc_in_ctr$6 (\merge_enc_in_ctr$55 ),
-    .enc_out(merge_enc_out),
-    .enc_out_ctr(merge_enc_out_ctr),
-    .end_in(merge_end_in),
-    .end_out(merge_end_out),
-    .rst(rst),
-    .valid_in(merge_valid_in),
-    .valid_out(merge_valid_out)
-  );
-  normalize normalize (
-    .clk(clk),
-    .end_in(normalize_end_in),
-    .end_out(normalize_end_out),
-    .rst(rst),
-    .ssss(normalize_ssss),
-    .\ssss$11 (\normalize_ssss$36 ),
-    .\ssss$7 (\normalize_ssss$32 ),
-    .\ssss$9 (\normalize_ssss$34 ),
-    .val_in(normalize_val_in),
-    .\val_in$1 (\normalize_val_in$26 ),
-    .\val_in$3 (\normalize_val_in$28 ),
-    .\val_in$5 (\normalize_val_in$30 ),
-    .val_out(normalize_val_out),
-    .\val_out$10 (\normalize_val_out$35 ),
-    .\val_out$12 (\normalize_val_out$37 ),
-    .\val_out$8 (\normalize_val_out$33 ),
-    .valid_in(normalize_valid_in),
-    .valid_out(normalize_valid_out),
-    .vals_in_mns(normalize_vals_in_mns),
-    .\vals_in_mns$2 (\normalize_vals_in_mns$27 ),
-    .\vals_in_mns$4 (\normalize_vals_in_mns$29 ),
-    .\vals_in_mns$6 (\normalize_vals_in_mns$31 )
-  );
-  predictor predictor (
-    .clk(clk),
-    .end_in(predictor_end_in),
-    .end_out(predictor_end_out),
-    .new_row(predictor_new_row),
-    .pixel_in(predictor_pixel_in),
-    .\pixel_in$1 (\predictor_pixel_in$4 ),
-    .\pixel_in$2 (\predictor_pixel_in$5 ),
-    .\pixel_in$3 (\predictor_pixel_in$6 ),
-    .pixel_out(predictor_pixel_out),
-    .\pixel_out$4 (\predictor_pixel_out$7 ),
-    .\pixel_out$5 (\predictor_pixel_out$8 ),
-    .\pixel_out$6 (\predictor_pixel_out$9 ),
-    .predic_out(predictor_predic_out),
-    .\predic_out$7 (\predictor_predic_out$10 ),
-    .\predic_out$8 (\predictor_predic_out$11 ),
-    .\predic_out$9 (\predictor_predic_out$12 ),
-    .rst(rst),
-    .valid_in(predictor_valid_in),
-    .valid_out(predictor_valid_out)
-  );
-  register_file register_file (
-    .allowed_cycles(register_file_allowed_cycles),
-    .clk(clk),
-    .full_clk(full_clk),
-    .full_rst(full_rst),
-    .height(register_file_height),
-    .width(register_file_width)
-  );
-  signals signals (
-    .clk(clk),
-    .end_of_frame(end_of_frame),
-    .height(signals_height),
-    .new_input(signals_new_input),
-    .new_row(signals_new_row),
-    .rst(rst),
-    .width(signals_width)
-  );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$13  = 12'h000;
-    \$next\difference_pixel_in$13  = \predictor_pixel_out$7 ;
-  end
-  always @* begin
-    \$next\difference_pixel_in$15  = 12'h000;
-    \$next\difference_pixel_in$15  = \predictor_pixel_out$8 ;
-  end
-  always @* begin
-    \$next\difference_pixel_in$17  = 12'h000;
-    \$next\difference_pixel_in$17  = \predictor_pixel_out$9 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$14  = 12'h000;
-    \$next\difference_predic_in$14  = \predictor_predic_out$10 ;
-  end
-  always @* begin
-    \$next\difference_predic_in$16  = 12'h000;
-    \$next\difference_predic_in$16  = \predictor_predic_out$11 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\difference_predic_in$18  = 12'h000;
-    \$next\difference_predic_in$18  = \predictor_predic_out$12 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$26  = 13'h0000;
-    \$next\normalize_val_in$26  = \difference_val_out$19 ;
-  end
-  always @* begin
-    \$next\normalize_val_in$28  = 13'h0000;
-    \$next\normalize_val_in$28  = \difference_val_out$20 ;
-  end
-  always @* begin
-    \$next\normalize_val_in$30  = 13'h0000;
-    \$next\normalize_val_in$30  = \difference_val_out$21 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$22 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$27  = 13'h0000;
-    \$next\normalize_vals_in_mns$27  = \difference_val_out$23 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$29  = 13'h0000;
-    \$next\normalize_vals_in_mns$29  = \difference_val_out$24 ;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$31  = 13'h0000;
-    \$next\normalize_vals_in_mns$31  = \difference_val_out$25 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$38  = 12'h000;
-    \$next\encode_val_in$38  = \normalize_val_out$33 ;
-  end
-  always @* begin
-    \$next\encode_val_in$40  = 12'h000;
-    \$next\encode_val_in$40  = \normalize_val_out$35 ;
-  end
-  always @* begin
-    \$next\encode_val_in$42  = 12'h000;
-    \$next\encode_val_in$42  = \normalize_val_out$37 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$39  = 5'h00;
-    \$next\encode_ssss$39  = \normalize_ssss$32 ;
-  end
-  always @* begin
-    \$next\encode_ssss$41  = 5'h00;
-    \$next\encode_ssss$41  = \normalize_ssss$34 ;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\encode_ssss$43  = 5'h00;
-    \$next\encode_ssss$43  = \normalize_ssss$36 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\merge_enc_in$50  = 28'h0000000;
-    \$next\merge_enc_in$50  = \encode_enc_out$44 ;
-  end
-  always @* begin
-    \$next\merge_enc_in$52  = 28'h0000000;
-    \$next\merge_enc_in$52  = \encode_enc_out$46 ;
-  end
-  always @* begin
-    \$next\merge_enc_in$54  = 28'h0000000;
-    \$next\merge_enc_in$54  = \encode_enc_out$48 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$51  = 5'h00;
-    \$next\merge_enc_in_ctr$51  = \encode_enc_ctr$45 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$53  = 5'h00;
-    \$next\merge_enc_in_ctr$53  = \encode_enc_ctr$47 ;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$55  = 5'h00;
-    \$next\merge_enc_in_ctr$55  = \encode_enc_ctr$49 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$4  = 12'h000;
-    \$next\predictor_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$5  = 12'h000;
-    \$next\predictor_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$6  = 12'h000;
-    \$next\predictor_pixel_in$6  = \pixel_in$3 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$55  = \$next\merge_enc_in_ctr$55 ;
-  assign \merge_enc_in_ctr$53  = \$next\merge_enc_in_ctr$53 ;
-  assign \merge_enc_in_ctr$51  = \$next\merge_enc_in_ctr$51 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$54  = \$next\merge_enc_in$54 ;
-  assign \merge_enc_in$52  = \$next\merge_enc_in$52 ;
-  assign \merge_enc_in$50  = \$next\merge_enc_in$50 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$43  = \$next\encode_ssss$43 ;
-  assign \encode_ssss$41  = \$next\encode_ssss$41 ;
-  assign \encode_ssss$39  = \$next\encode_ssss$39 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$42  = \$next\encode_val_in$42 ;
-  assign \encode_val_in$40  = \$next\encode_val_in$40 ;
-  assign \encode_val_in$38  = \$next\encode_val_in$38 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$31  = \$next\normalize_vals_in_mns$31 ;
-  assign \normalize_vals_in_mns$29  = \$next\normalize_vals_in_mns$29 ;
-  assign \normalize_vals_in_mns$27  = \$next\normalize_vals_in_mns$27 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$30  = \$next\normalize_val_in$30 ;
-  assign \normalize_val_in$28  = \$next\normalize_val_in$28 ;
-  assign \normalize_val_in$26  = \$next\normalize_val_in$26 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$18  = \$next\difference_predic_in$18 ;
-  assign \difference_predic_in$16  = \$next\difference_predic_in$16 ;
-  assign \difference_predic_in$14  = \$next\difference_predic_in$14 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$17  = \$next\difference_pixel_in$17 ;
-  assign \difference_pixel_in$15  = \$next\difference_pixel_in$15 ;
-  assign \difference_pixel_in$13  = \$next\difference_pixel_in$13 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$6  = \$next\predictor_pixel_in$6 ;
-  assign \predictor_pixel_in$5  = \$next\predictor_pixel_in$5 ;
-  assign \predictor_pixel_in$4  = \$next\predictor_pixel_in$4 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+    .\val_out$8 (\difference_val_out$20 ),
+    .\val_out$9 (\difference_val_out$21 ),
+    .valid_in(difference_valid_in),
+    .valid_out(difference_valid_out)
+  );
+  encode encode (
+    .clk(clk),
+    .enc_ctr(encode_enc_ctr),
+    .\enc_ctr$10 (\encode_enc_ctr$47 ),
+    .\enc_ctr$11 (\encode_enc_ctr$48 ),
+    .\enc_ctr$12 (\encode_enc_ctr$49 ),
+    .enc_out(encode_enc_out),
+    .\enc_out$7 (\encode_enc_out$44 ),
+    .\enc_out$8 (\encode_enc_out$45 ),
+    .\enc_out$9 (\encode_enc_out$46 ),
+    .end_in(encode_end_in),
+    .end_out(encode_end_out),
+    .rst(rst),
+    .ssss(encode_ssss),
+    .\ssss$4 (\encode_ssss$41 ),
+    .\ssss$5 (\encode_ssss$42 ),
+    .\ssss$6 (\encode_ssss$43 ),
+    .val_in(encode_val_in),
+    .\val_in$1 (\encode_val_in$38 ),
+    .\val_in$2 (\encode_val_in$39 ),
+    .\val_in$3 (\encode_val_in$40 ),
+    .valid_in(encode_valid_in),
+    .valid_out(encode_valid_out)
+  );
+  force_end force_end (
+    .allowed_cycles(force_end_allowed_cycles),
+    .clk(clk),
+    .fend(force_end_fend),
+    .rst(rst),
+    .valid_in(force_end_valid_in)
+  );
+  merge merge (
+    .clk(clk),
+    .enc_in(merge_enc_in),
+    .\enc_in$1 (\merge_enc_in$50 ),
+    .\enc_in$2 (\merge_enc_in$51 ),
+    .\enc_in$3 (\merge_enc_in$52 ),
+    .enc_in_ctr(merge_enc_in_ctr),
+    .\enc_in_ctr$4 (\merge_enc_in_ctr$53 ),
+    .\enc_in_ctr$5 (\merge_enc_in_ctr$54 ),
+    .\enc_in_ctr$6 (\merge_enc_in_ctr$55 ),
+    .enc_out(merge_enc_out),
+    .enc_out_ctr(merge_enc_out_ctr),
+    .end_in(merge_end_in),
+    .end_out(merge_end_out),
+    .rst(rst),
+    .valid_in(merge_valid_in),
+    .valid_out(merge_valid_out)
+  );
+  normalize normalize (
+    .clk(clk),
+    .end_in(normalize_end_in),
+    .end_out(normalize_end_out),
+    .rst(rst),
+    .ssss(normalize_ssss),
+    .\ssss$10 (\normalize_ssss$35 ),
+    .\ssss$11 (\normalize_ssss$36 ),
+    .\ssss$12 (\normalize_ssss$37 ),
+    .val_in(normalize_val_in),
+    .\val_in$1 (\normalize_val_in$26 ),
+    .\val_in$2 (\normalize_val_in$27 ),
+    .\val_in$3 (\normalize_val_in$28 ),
+    .val_out(normalize_val_out),
+    .\val_out$7 (\normalize_val_out$32 ),
+    .\val_out$8 (\normalize_val_out$33 ),
+    .\val_out$9 (\normalize_val_out$34 ),
+    .valid_in(normalize_valid_in),
+    .valid_out(normalize_valid_out),
+    .vals_in_mns(normalize_vals_in_mns),
+    .\vals_in_mns$4 (\normalize_vals_in_mns$29 ),
+    .\vals_in_mns$5 (\normalize_vals_in_mns$30 ),
+    .\vals_in_mns$6 (\normalize_vals_in_mns$31 )
+  );
+  predictor predictor (
+    .clk(clk),
+    .end_in(predictor_end_in),
+    .end_out(predictor_end_out),
+    .new_row(predictor_new_row),
+    .pixel_in(predictor_pixel_in),
+    .\pixel_in$1 (\predictor_pixel_in$4 ),
+    .\pixel_in$2 (\predictor_pixel_in$5 ),
+    .\pixel_in$3 (\predictor_pixel_in$6 ),
+    .pixel_out(predictor_pixel_out),
+    .\pixel_out$4 (\predictor_pixel_out$7 ),
+    .\pixel_out$5 (\predictor_pixel_out$8 ),
+    .\pixel_out$6 (\predictor_pixel_out$9 ),
+    .predic_out(predictor_predic_out),
+    .\predic_out$7 (\predictor_predic_out$10 ),
+    .\predic_out$8 (\predictor_predic_out$11 ),
+    .\predic_out$9 (\predictor_predic_out$12 ),
+    .rst(rst),
+    .valid_in(predictor_valid_in),
+    .valid_out(predictor_valid_out)
+  );
+  register_file register_file (
+    .allowed_cycles(register_file_allowed_cycles),
+    .clk(clk),
+    .full_clk(full_clk),
+    .full_rst(full_rst),
+    .height(register_file_height),
+    .width(register_file_width)
+  );
+  signals signals (
+    .clk(clk),
+    .end_of_frame(end_of_frame),
+    .height(signals_height),
+    .new_input(signals_new_input),
+    .new_row(signals_new_row),
+    .rst(rst),
+    .width(signals_width)
+  );
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$55  = \encode_enc_ctr$49 ;
+  assign \merge_enc_in_ctr$54  = \encode_enc_ctr$48 ;
+  assign \merge_enc_in_ctr$53  = \encode_enc_ctr$47 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$52  = \encode_enc_out$46 ;
+  assign \merge_enc_in$51  = \encode_enc_out$45 ;
+  assign \merge_enc_in$50  = \encode_enc_out$44 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$43  = \normalize_ssss$37 ;
+  assign \encode_ssss$42  = \normalize_ssss$36 ;
+  assign \encode_ssss$41  = \normalize_ssss$35 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$40  = \normalize_val_out$34 ;
+  assign \encode_val_in$39  = \normalize_val_out$33 ;
+  assign \encode_val_in$38  = \normalize_val_out$32 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$31  = \difference_val_out$25 ;
+  assign \normalize_vals_in_mns$30  = \difference_val_out$24 ;
+  assign \normalize_vals_in_mns$29  = \difference_val_out$23 ;
+  assign normalize_vals_in_mns = \difference_val_out$22 ;
+  assign \normalize_val_in$28  = \difference_val_out$21 ;
+  assign \normalize_val_in$27  = \difference_val_out$20 ;
+  assign \normalize_val_in$26  = \difference_val_out$19 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$18  = \predictor_predic_out$12 ;
+  assign \difference_predic_in$17  = \predictor_predic_out$11 ;
+  assign \difference_predic_in$16  = \predictor_predic_out$10 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$15  = \predictor_pixel_out$9 ;
+  assign \difference_pixel_in$14  = \predictor_pixel_out$8 ;
+  assign \difference_pixel_in$13  = \predictor_pixel_out$7 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$6  = \pixel_in$3 ;
+  assign \predictor_pixel_in$5  = \pixel_in$2 ;
+  assign \predictor_pixel_in$4  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_output, rst, full_clk, full_rst, nready, enc_out, enc_out_ctr, valid_out, out_end, clk, fend_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_2" *)
+module integration_2(\pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, rst, clk, fend_out, full_clk, full_rst, pixel_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$164  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:62" *)
   wire \$13 ;
+  (* src = "integration_2.py:62" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:61" *)
   wire \$19 ;
+  (* src = "integration_2.py:61" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:62" *)
   wire \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$31 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$33 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$34 ;
+  (* src = "integration_2.py:70" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:75" *)
   wire \$44 ;
+  (* src = "integration_2.py:75" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:80" *)
   wire \$50 ;
+  (* src = "integration_2.py:80" *)
   wire \$52 ;
+  (* src = "converter_fifo.py:65" *)
   wire [111:0] \$54 ;
+  (* src = "converter_fifo.py:66" *)
   wire [6:0] \$56 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [111:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [6:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [47:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [5:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$4 ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$5 ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$6 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [111:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [6:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -5416,38 +6139,44 @@ module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_o
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [111:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [6:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [6:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [111:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [111:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [6:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$4 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$5 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$6 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -5468,73 +6197,86 @@ module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_o
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$15  = \$11  & (* src = "integration_2.py:61" *) \$13 ;
-  assign \$17  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$19  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$21  = \$17  | (* src = "integration_2.py:60" *) \$19 ;
-  assign \$23  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$25  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$29  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$31  = \$27  & (* src = "integration_2.py:61" *) \$29 ;
-  assign \$34  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$36  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$38  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$40  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$46  = \$42  | (* src = "integration_2.py:74" *) \$44 ;
-  assign \$48  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$50  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$52  = \$48  & (* src = "integration_2.py:79" *) \$50 ;
+  wire valid_out;
+  assign \$9  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$15  = \$11  & (* src = "integration_2.py:62" *) \$13 ;
+  assign \$17  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$19  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$21  = \$17  | (* src = "integration_2.py:61" *) \$19 ;
+  assign \$23  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$25  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$29  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$31  = \$27  & (* src = "integration_2.py:62" *) \$29 ;
+  assign \$34  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$36  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$38  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$40  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$46  = \$42  | (* src = "integration_2.py:75" *) \$44 ;
+  assign \$48  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$50  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$52  = \$48  & (* src = "integration_2.py:80" *) \$50 ;
   assign \$54  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$56  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$7  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$7  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -5595,1014 +6337,680 @@ module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_o
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$15 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_end$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$52 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 112'h0000000000000000000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 7'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 112'h0000000000000000000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 7'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$31 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 48'h000000000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 6'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = \$54 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = \$56 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$33 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_reset_counter$next  = \$34 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$36 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$46 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$4  = 12'h000;
-    \$next\integration_1_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$5  = 12'h000;
-    \$next\integration_1_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$6  = 12'h000;
-    \$next\integration_1_pixel_in$6  = \pixel_in$3 ;
-  end
   assign \$33  = \$34 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$6  = \$next\integration_1_pixel_in$6 ;
-  assign \integration_1_pixel_in$5  = \$next\integration_1_pixel_in$5 ;
-  assign \integration_1_pixel_in$4  = \$next\integration_1_pixel_in$4 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$56 ;
+  assign enc_out = \$54 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$52 ;
+  assign \integration_1_pixel_in$6  = \pixel_in$3 ;
+  assign \integration_1_pixel_in$5  = \pixel_in$2 ;
+  assign \integration_1_pixel_in$4  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$46 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, rst, clk, close_full);
+  reg \$auto$verilog_backend.cc:2184:dump_module$165  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [119:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [111:0] enc_in;
+  wire [111:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [6:0] enc_in_ctr;
+  wire [6:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [111:0] enc_out;
+  wire [111:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [6:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [119:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [119:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [6:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [7:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [119:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [119:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 7'h76;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 120'h000000000000000000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = fifo_dout[111:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = fifo_dout[118:112];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[119];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[119];
+  assign enc_out_ctr = fifo_r_data[118:112];
+  assign enc_out = fifo_r_data[111:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , \enc_in$3 , \enc_in_ctr$4 , \enc_in$5 , \enc_in_ctr$6 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
-  (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
-  (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1$17 ;
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.merge" *)
+module merge(clk, enc_in, \enc_in$1 , \enc_in$2 , \enc_in$3 , enc_in_ctr, \enc_in_ctr$4 , \enc_in_ctr$5 , \enc_in_ctr$6 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, rst);
   (* src = "merge.py:43" *)
-  reg [55:0] \$next\enc_in1$26 ;
-  (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
-  (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2$18 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [55:0] \$next\enc_in2$27 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
-  (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1$15 ;
-  (* src = "merge.py:44" *)
-  reg [5:0] \$next\enc_in_ctr1$24 ;
-  (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2$16 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [5:0] \$next\enc_in_ctr2$25 ;
-  (* src = "merge.py:112" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:57" *)
-  reg \$next\end_in$19 ;
-  (* src = "merge.py:57" *)
-  reg \$next\end_in$28 ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$8 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$14 ;
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "merge.py:43" *)
+  wire [27:0] \U$$1_enc_in1 ;
+  (* src = "merge.py:46" *)
+  wire [27:0] \U$$1_enc_in2 ;
+  (* src = "merge.py:44" *)
+  wire [4:0] \U$$1_enc_in_ctr1 ;
+  (* src = "merge.py:47" *)
+  wire [4:0] \U$$1_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$1_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$1_enc_out_ctr ;
+  (* src = "merge.py:57" *)
+  wire \U$$1_end_in ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$23 ;
+  wire \U$$1_valid_in ;
+  (* src = "merge.py:43" *)
+  wire [55:0] \U$$2_enc_in1 ;
+  (* src = "merge.py:46" *)
+  wire [55:0] \U$$2_enc_in2 ;
+  (* src = "merge.py:44" *)
+  wire [5:0] \U$$2_enc_in_ctr1 ;
+  (* src = "merge.py:47" *)
+  wire [5:0] \U$$2_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [111:0] \U$$2_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [6:0] \U$$2_enc_out_ctr ;
+  (* src = "merge.py:57" *)
+  wire \U$$2_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$2_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$7 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$2_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$2_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "merge.py:109" *)
   input [27:0] \enc_in$1 ;
+  wire [27:0] \enc_in$1 ;
   (* src = "merge.py:109" *)
-  input [27:0] \enc_in$3 ;
+  input [27:0] \enc_in$2 ;
+  wire [27:0] \enc_in$2 ;
   (* src = "merge.py:109" *)
-  input [27:0] \enc_in$5 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:43" *)
-  wire [27:0] \enc_in1$17 ;
-  (* src = "merge.py:43" *)
-  wire [55:0] \enc_in1$26 ;
-  (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
-  (* src = "merge.py:46" *)
-  wire [27:0] \enc_in2$18 ;
-  (* src = "merge.py:46" *)
-  wire [55:0] \enc_in2$27 ;
+  input [27:0] \enc_in$3 ;
+  wire [27:0] \enc_in$3 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
-  (* src = "merge.py:110" *)
-  input [4:0] \enc_in_ctr$2 ;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$4 ;
+  wire [4:0] \enc_in_ctr$4 ;
+  (* src = "merge.py:110" *)
+  input [4:0] \enc_in_ctr$5 ;
+  wire [4:0] \enc_in_ctr$5 ;
   (* src = "merge.py:110" *)
   input [4:0] \enc_in_ctr$6 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:44" *)
-  wire [4:0] \enc_in_ctr1$15 ;
-  (* src = "merge.py:44" *)
-  wire [5:0] \enc_in_ctr1$24 ;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
-  (* src = "merge.py:47" *)
-  wire [4:0] \enc_in_ctr2$16 ;
-  (* src = "merge.py:47" *)
-  wire [5:0] \enc_in_ctr2$25 ;
+  wire [4:0] \enc_in_ctr$6 ;
   (* src = "merge.py:112" *)
   output [111:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$10 ;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$21 ;
-  (* src = "merge.py:49" *)
-  wire [111:0] \enc_out$30 ;
+  wire [111:0] enc_out;
   (* src = "merge.py:113" *)
   output [6:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$20 ;
-  (* src = "merge.py:50" *)
-  wire [6:0] \enc_out_ctr$29 ;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$9 ;
+  wire [6:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$19 ;
-  (* src = "merge.py:57" *)
-  wire \end_in$28 ;
-  (* src = "merge.py:57" *)
-  wire \end_in$8 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$12 ;
-  (* src = "merge.py:58" *)
-  wire \end_out$32 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$14 ;
-  (* src = "merge.py:53" *)
-  wire \valid_in$23 ;
-  (* src = "merge.py:53" *)
-  wire \valid_in$7 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$11 ;
-  (* src = "merge.py:54" *)
-  wire \valid_out$31 ;
-  \anonymous$8  \$13  (
+  wire valid_out;
+  \U$$0$5  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$10 ),
-    .enc_out_ctr(\enc_out_ctr$9 ),
-    .end_in(\end_in$8 ),
-    .end_out(\end_out$12 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$7 ),
-    .valid_out(\valid_out$11 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  \anonymous$9  \$22  (
+  \U$$1$6  \U$$1  (
     .clk(clk),
-    .enc_in1(\enc_in1$17 ),
-    .enc_in2(\enc_in2$18 ),
-    .enc_in_ctr1(\enc_in_ctr1$15 ),
-    .enc_in_ctr2(\enc_in_ctr2$16 ),
-    .enc_out(\enc_out$21 ),
-    .enc_out_ctr(\enc_out_ctr$20 ),
-    .end_in(\end_in$19 ),
+    .enc_in1(\U$$1_enc_in1 ),
+    .enc_in2(\U$$1_enc_in2 ),
+    .enc_in_ctr1(\U$$1_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$1_enc_in_ctr2 ),
+    .enc_out(\U$$1_enc_out ),
+    .enc_out_ctr(\U$$1_enc_out_ctr ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .valid_in(\valid_in$14 )
+    .valid_in(\U$$1_valid_in )
   );
-  \anonymous$10  \$33  (
+  \U$$2$7  \U$$2  (
     .clk(clk),
-    .enc_in1(\enc_in1$26 ),
-    .enc_in2(\enc_in2$27 ),
-    .enc_in_ctr1(\enc_in_ctr1$24 ),
-    .enc_in_ctr2(\enc_in_ctr2$25 ),
-    .enc_out(\enc_out$30 ),
-    .enc_out_ctr(\enc_out_ctr$29 ),
-    .end_in(\end_in$28 ),
-    .end_out(\end_out$32 ),
+    .enc_in1(\U$$2_enc_in1 ),
+    .enc_in2(\U$$2_enc_in2 ),
+    .enc_in_ctr1(\U$$2_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$2_enc_in_ctr2 ),
+    .enc_out(\U$$2_enc_out ),
+    .enc_out_ctr(\U$$2_enc_out_ctr ),
+    .end_in(\U$$2_end_in ),
+    .end_out(\U$$2_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$23 ),
-    .valid_out(\valid_out$31 )
+    .valid_in(\U$$2_valid_in ),
+    .valid_out(\U$$2_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\enc_in2$18  = 28'h0000000;
-    \$next\enc_in2$18  = \enc_in$5 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2$16  = 5'h00;
-    \$next\enc_in_ctr2$16  = \enc_in_ctr$6 ;
-  end
-  always @* begin
-    \$next\enc_in1$26  = 56'h00000000000000;
-    \$next\enc_in1$26  = \enc_out$10 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr1$24  = 6'h00;
-    \$next\enc_in_ctr1$24  = \enc_out_ctr$9 ;
-  end
-  always @* begin
-    \$next\enc_in2$27  = 56'h00000000000000;
-    \$next\enc_in2$27  = \enc_out$21 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2$25  = 6'h00;
-    \$next\enc_in_ctr2$25  = \enc_out_ctr$20 ;
-  end
-  always @* begin
-    \$next\valid_in$23  = 1'h0;
-    \$next\valid_in$23  = \valid_out$11 ;
-  end
-  always @* begin
-    \$next\end_in$28  = 1'h0;
-    \$next\end_in$28  = \end_out$12 ;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = \enc_out$30 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$29 ;
-  end
-  always @* begin
-    \$next\valid_in$7  = 1'h0;
-    \$next\valid_in$7  = valid_in;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$31 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$32 ;
-  end
-  always @* begin
-    \$next\end_in$8  = 1'h0;
-    \$next\end_in$8  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_in1$17  = 28'h0000000;
-    \$next\enc_in1$17  = \enc_in$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr1$15  = 5'h00;
-    \$next\enc_in_ctr1$15  = \enc_in_ctr$4 ;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$19  = 1'h0;
-    \$next\end_in$19  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign \end_in$28  = \$next\end_in$28 ;
-  assign \valid_in$23  = \$next\valid_in$23 ;
-  assign \enc_in_ctr2$25  = \$next\enc_in_ctr2$25 ;
-  assign \enc_in2$27  = \$next\enc_in2$27 ;
-  assign \enc_in_ctr1$24  = \$next\enc_in_ctr1$24 ;
-  assign \enc_in1$26  = \$next\enc_in1$26 ;
-  assign \enc_in_ctr2$16  = \$next\enc_in_ctr2$16 ;
-  assign \enc_in2$18  = \$next\enc_in2$18 ;
-  assign \end_in$19  = \$next\end_in$19 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \enc_in_ctr1$15  = \$next\enc_in_ctr1$15 ;
-  assign \enc_in1$17  = \$next\enc_in1$17 ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$8  = \$next\end_in$8 ;
-  assign \valid_in$7  = \$next\valid_in$7 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$2_end_out ;
+  assign valid_out = \U$$2_valid_out ;
+  assign enc_out_ctr = \U$$2_enc_out_ctr ;
+  assign enc_out = \U$$2_enc_out ;
+  assign \U$$2_end_in  = \U$$0_end_out ;
+  assign \U$$2_valid_in  = \U$$0_valid_out ;
+  assign \U$$2_enc_in_ctr2  = \U$$1_enc_out_ctr ;
+  assign \U$$2_enc_in2  = \U$$1_enc_out ;
+  assign \U$$2_enc_in_ctr1  = \U$$0_enc_out_ctr ;
+  assign \U$$2_enc_in1  = \U$$0_enc_out ;
+  assign \U$$1_enc_in_ctr2  = \enc_in_ctr$6 ;
+  assign \U$$1_enc_in2  = \enc_in$3 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_enc_in_ctr1  = \enc_in_ctr$5 ;
+  assign \U$$1_enc_in1  = \enc_in$2 ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$4 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , \val_in$3 , \vals_in_mns$4 , \val_in$5 , \vals_in_mns$6 , rst, clk, ssss, val_out, \ssss$7 , \val_out$8 , \ssss$9 , \val_out$10 , \ssss$11 , \val_out$12 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$22 ;
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$29 ;
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.normalize" *)
+module normalize(clk, val_in, \val_in$1 , \val_in$2 , \val_in$3 , vals_in_mns, \vals_in_mns$4 , \vals_in_mns$5 , \vals_in_mns$6 , valid_in, end_in, val_out, \val_out$7 , \val_out$8 , \val_out$9 , ssss, \ssss$10 , \ssss$11 , \ssss$12 , valid_out, end_out
+, rst);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$36 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$11 ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$7 ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$9 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$13 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$20 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$27 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$34 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$21 ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$28 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$35 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$10 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$12 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$8 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$19 ;
+  wire \U$$1_valid ;
+  (* src = "normalize.py:132" *)
+  wire \U$$2_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$2_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$2_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$2_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$2_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$26 ;
+  wire \U$$2_valid ;
+  (* src = "normalize.py:132" *)
+  wire \U$$3_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$3_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$3_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$3_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$3_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$33 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$3_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$22 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$29 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$36 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$17 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$11 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$24 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$31 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$38 ;
+  output [4:0] \ssss$10 ;
+  wire [4:0] \ssss$10 ;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$7 ;
+  output [4:0] \ssss$11 ;
+  wire [4:0] \ssss$11 ;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$9 ;
+  output [4:0] \ssss$12 ;
+  wire [4:0] \ssss$12 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$13 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$20 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$27 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:194" *)
-  input [12:0] \val_in$3 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$34 ;
+  input [12:0] \val_in$2 ;
+  wire [12:0] \val_in$2 ;
   (* src = "normalize.py:194" *)
-  input [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$21 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$28 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$35 ;
+  input [12:0] \val_in$3 ;
+  wire [12:0] \val_in$3 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$10 ;
-  (* src = "normalize.py:199" *)
-  output [11:0] \val_out$12 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$23 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$30 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$37 ;
+  output [11:0] \val_out$7 ;
+  wire [11:0] \val_out$7 ;
   (* src = "normalize.py:199" *)
   output [11:0] \val_out$8 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$19 ;
-  (* src = "normalize.py:128" *)
-  wire \valid$26 ;
-  (* src = "normalize.py:128" *)
-  wire \valid$33 ;
+  wire [11:0] \val_out$8 ;
+  (* src = "normalize.py:199" *)
+  output [11:0] \val_out$9 ;
+  wire [11:0] \val_out$9 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
-  (* src = "normalize.py:196" *)
-  input [12:0] \vals_in_mns$2 ;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$4 ;
+  wire [12:0] \vals_in_mns$4 ;
+  (* src = "normalize.py:196" *)
+  input [12:0] \vals_in_mns$5 ;
+  wire [12:0] \vals_in_mns$5 ;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$6 ;
-  anonymous \$18  (
+  wire [12:0] \vals_in_mns$6 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$14 ),
-    .end_out(\end_out$17 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$13 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$15 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$25  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$22 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$24 ),
-    .val_in(\val_in$20 ),
-    .val_in_mns(\val_in_mns$21 ),
-    .val_out(\val_out$23 ),
-    .valid(\valid$19 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  \anonymous$2  \$32  (
+  \U$$2  \U$$2  (
     .clk(clk),
-    .end_in(\end_in$29 ),
+    .end_in(\U$$2_end_in ),
     .rst(rst),
-    .ssss(\ssss$31 ),
-    .val_in(\val_in$27 ),
-    .val_in_mns(\val_in_mns$28 ),
-    .val_out(\val_out$30 ),
-    .valid(\valid$26 )
+    .ssss(\U$$2_ssss ),
+    .val_in(\U$$2_val_in ),
+    .val_in_mns(\U$$2_val_in_mns ),
+    .val_out(\U$$2_val_out ),
+    .valid(\U$$2_valid )
   );
-  \anonymous$3  \$39  (
+  \U$$3  \U$$3  (
     .clk(clk),
-    .end_in(\end_in$36 ),
+    .end_in(\U$$3_end_in ),
     .rst(rst),
-    .ssss(\ssss$38 ),
-    .val_in(\val_in$34 ),
-    .val_in_mns(\val_in_mns$35 ),
-    .val_out(\val_out$37 ),
-    .valid(\valid$33 )
+    .ssss(\U$$3_ssss ),
+    .val_in(\U$$3_val_in ),
+    .val_in_mns(\U$$3_val_in_mns ),
+    .val_out(\U$$3_val_out ),
+    .valid(\U$$3_valid )
   );
-  always @* begin
-    \$next\val_in$13  = 13'h0000;
-    \$next\val_in$13  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = \ssss$24 ;
-  end
-  always @* begin
-    \$next\val_out$8  = 12'h000;
-    \$next\val_out$8  = \val_out$23 ;
-  end
-  always @* begin
-    \$next\val_in$27  = 13'h0000;
-    \$next\val_in$27  = \val_in$3 ;
-  end
-  always @* begin
-    \$next\valid$26  = 1'h0;
-    \$next\valid$26  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$29  = 1'h0;
-    \$next\end_in$29  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$28  = 13'h0000;
-    \$next\val_in_mns$28  = \vals_in_mns$4 ;
-  end
-  always @* begin
-    \$next\ssss$9  = 5'h00;
-    \$next\ssss$9  = \ssss$31 ;
-  end
-  always @* begin
-    \$next\val_out$10  = 12'h000;
-    \$next\val_out$10  = \val_out$30 ;
-  end
-  always @* begin
-    \$next\val_in$34  = 13'h0000;
-    \$next\val_in$34  = \val_in$5 ;
-  end
-  always @* begin
-    \$next\valid$33  = 1'h0;
-    \$next\valid$33  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\end_in$36  = 1'h0;
-    \$next\end_in$36  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$35  = 13'h0000;
-    \$next\val_in_mns$35  = \vals_in_mns$6 ;
-  end
-  always @* begin
-    \$next\ssss$11  = 5'h00;
-    \$next\ssss$11  = \ssss$38 ;
-  end
-  always @* begin
-    \$next\val_out$12  = 12'h000;
-    \$next\val_out$12  = \val_out$37 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$17 ;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\val_in$20  = 13'h0000;
-    \$next\val_in$20  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$19  = 1'h0;
-    \$next\valid$19  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$22  = 1'h0;
-    \$next\end_in$22  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$21  = 13'h0000;
-    \$next\val_in_mns$21  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$12  = \$next\val_out$12 ;
-  assign \ssss$11  = \$next\ssss$11 ;
-  assign \val_in_mns$35  = \$next\val_in_mns$35 ;
-  assign \end_in$36  = \$next\end_in$36 ;
-  assign \valid$33  = \$next\valid$33 ;
-  assign \val_in$34  = \$next\val_in$34 ;
-  assign \val_out$10  = \$next\val_out$10 ;
-  assign \ssss$9  = \$next\ssss$9 ;
-  assign \val_in_mns$28  = \$next\val_in_mns$28 ;
-  assign \end_in$29  = \$next\end_in$29 ;
-  assign \valid$26  = \$next\valid$26 ;
-  assign \val_in$27  = \$next\val_in$27 ;
-  assign \val_out$8  = \$next\val_out$8 ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \val_in_mns$21  = \$next\val_in_mns$21 ;
-  assign \end_in$22  = \$next\end_in$22 ;
-  assign \valid$19  = \$next\valid$19 ;
-  assign \val_in$20  = \$next\val_in$20 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign valid = \$next\valid ;
-  assign \val_in$13  = \$next\val_in$13 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$9  = \U$$3_val_out ;
+  assign \ssss$12  = \U$$3_ssss ;
+  assign \U$$3_val_in_mns  = \vals_in_mns$6 ;
+  assign \U$$3_end_in  = end_in;
+  assign \U$$3_valid  = valid_in;
+  assign \U$$3_val_in  = \val_in$3 ;
+  assign \val_out$8  = \U$$2_val_out ;
+  assign \ssss$11  = \U$$2_ssss ;
+  assign \U$$2_val_in_mns  = \vals_in_mns$5 ;
+  assign \U$$2_end_in  = end_in;
+  assign \U$$2_valid  = valid_in;
+  assign \U$$2_val_in  = \val_in$2 ;
+  assign \val_out$7  = \U$$1_val_out ;
+  assign \ssss$10  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$4 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.vbits_to_cbits.output_handler" *)
+module output_handler(clk, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$166  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [8:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [8:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [8:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [8:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [4:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [6:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [7:0] buff_consum;
+  wire [7:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [143:0] buffer;
+  wire [143:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [31:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [4:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [6:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -6641,148 +7049,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @* begin
-    \$next\shift_right  = 7'h00;
-    \$next\shift_right  = \$1 [6:0];
-  end
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\shift_left  = 5'h00;
-    \$next\shift_left  = \$4 [4:0];
-  end
-  always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [31:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [31:0];
+                      \data_out$next  = \$40 [31:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [31:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [31:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [31:0];
+                      \data_out$next  = \$52 [31:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [31:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -6791,543 +7252,621 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [4:0];
+  assign shift_right = \$2 [6:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , new_row, end_in, rst, clk, pixel_out, \pixel_out$4 , \pixel_out$5 , \pixel_out$6 , predic_out, \predic_out$7 , \predic_out$8 , \predic_out$9 , valid_out, end_out, valid_in);
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$11 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$13 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$15 ;
-  (* src = "predictor_p1_c4_px4.py:80" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$10 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$12 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$14 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$4 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$5 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$6 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$7 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$8 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$9 ;
-  (* src = "predictor_p1_c4_px4.py:76" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.predictor" *)
+module predictor(clk, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , new_row, end_in, valid_in, pixel_out, \pixel_out$4 , \pixel_out$5 , \pixel_out$6 , predic_out, \predic_out$7 , \predic_out$8 , \predic_out$9 , valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$167  = 0;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$11  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$11$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$13  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$13$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$15  = 12'h800;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$15$next ;
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "predictor_p1_c4_px4.py:79" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_px4.py:80" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:80" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$10  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$10$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$12  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$12$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$14  = 12'h800;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$14$next ;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_px4.py:66" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$2 ;
+  wire [11:0] \pixel_in$2 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$3 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$3 ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$4 ;
   reg [11:0] \pixel_out$4  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$4$next ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$5 ;
   reg [11:0] \pixel_out$5  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$5$next ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$6 ;
   reg [11:0] \pixel_out$6  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$6$next ;
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$7 ;
   reg [11:0] \predic_out$7  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$7$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$8 ;
   reg [11:0] \predic_out$8  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$8$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$9 ;
   reg [11:0] \predic_out$9  = 12'h000;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$9$next ;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_px4.py:75" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_px4.py:76" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_px4.py:76" *)
+  reg \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \buff$15  <= \$next\buff$15 ;
+    \buff$15  <= \buff$15$next ;
   always @(posedge clk)
-      \buff$13  <= \$next\buff$13 ;
+    \buff$13  <= \buff$13$next ;
   always @(posedge clk)
-      \buff$11  <= \$next\buff$11 ;
+    \buff$11  <= \buff$11$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      \lbuff$14  <= \$next\lbuff$14 ;
+    \lbuff$14  <= \lbuff$14$next ;
   always @(posedge clk)
-      \lbuff$12  <= \$next\lbuff$12 ;
+    \lbuff$12  <= \lbuff$12$next ;
   always @(posedge clk)
-      \lbuff$10  <= \$next\lbuff$10 ;
+    \lbuff$10  <= \lbuff$10$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      \predic_out$9  <= \$next\predic_out$9 ;
+    \predic_out$9  <= \predic_out$9$next ;
   always @(posedge clk)
-      \predic_out$8  <= \$next\predic_out$8 ;
+    \predic_out$8  <= \predic_out$8$next ;
   always @(posedge clk)
-      \predic_out$7  <= \$next\predic_out$7 ;
+    \predic_out$7  <= \predic_out$7$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \pixel_out$6  <= \$next\pixel_out$6 ;
+    \pixel_out$6  <= \pixel_out$6$next ;
   always @(posedge clk)
-      \pixel_out$5  <= \$next\pixel_out$5 ;
+    \pixel_out$5  <= \pixel_out$5$next ;
   always @(posedge clk)
-      \pixel_out$4  <= \$next\pixel_out$4 ;
+    \pixel_out$4  <= \pixel_out$4$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$4  = \pixel_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$4$next  = \pixel_out$4 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$4  = \pixel_in$1 ;
+          \pixel_out$4$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$4  = 12'h000;
+          \pixel_out$4$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\lbuff$12  = \lbuff$12 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$12$next  = \lbuff$12 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$12  = \pixel_in$2 ;
+                \lbuff$12$next  = \pixel_in$2 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$12  = 12'h800;
+          \lbuff$12$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$14  = \lbuff$14 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$14$next  = \lbuff$14 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$14  = \pixel_in$3 ;
+                \lbuff$14$next  = \pixel_in$3 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$14  = 12'h800;
+          \lbuff$14$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff  = pixel_in;
+          \buff$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$11  = \buff$11 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$11$next  = \buff$11 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$11  = \pixel_in$1 ;
+          \buff$11$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$11  = 12'h800;
+          \buff$11$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$13  = \buff$13 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$13$next  = \buff$13 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$13  = \pixel_in$2 ;
+          \buff$13$next  = \pixel_in$2 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$13  = 12'h800;
+          \buff$13$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$15  = \buff$15 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$15$next  = \buff$15 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$15  = \pixel_in$3 ;
+          \buff$15$next  = \pixel_in$3 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$15  = 12'h800;
+          \buff$15$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\pixel_out$5  = \pixel_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$5$next  = \pixel_out$5 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$5  = \pixel_in$2 ;
+          \pixel_out$5$next  = \pixel_in$2 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$5  = 12'h000;
+          \pixel_out$5$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$6  = \pixel_out$6 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$6$next  = \pixel_out$6 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$6  = \pixel_in$3 ;
+          \pixel_out$6$next  = \pixel_in$3 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$6  = 12'h000;
+          \pixel_out$6$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out  = lbuff;
-            1'hz:
-                \$next\predic_out  = buff;
+                \predic_out$next  = lbuff;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$next  = buff;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$7  = \predic_out$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$7$next  = \predic_out$7 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$7  = \lbuff$10 ;
-            1'hz:
-                \$next\predic_out$7  = \buff$11 ;
+                \predic_out$7$next  = \lbuff$10 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$7$next  = \buff$11 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$7  = 12'h000;
+          \predic_out$7$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$8  = \predic_out$8 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$8$next  = \predic_out$8 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$8  = \lbuff$12 ;
-            1'hz:
-                \$next\predic_out$8  = \buff$13 ;
+                \predic_out$8$next  = \lbuff$12 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$8$next  = \buff$13 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$8  = 12'h000;
+          \predic_out$8$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$9  = \predic_out$9 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$9$next  = \predic_out$9 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$9  = \lbuff$14 ;
-            1'hz:
-                \$next\predic_out$9  = \buff$15 ;
+                \predic_out$9$next  = \lbuff$14 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$9$next  = \buff$15 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$9  = 12'h000;
+          \predic_out$9$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff  = pixel_in;
+                \lbuff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$10  = \lbuff$10 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$10$next  = \lbuff$10 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$10  = \pixel_in$1 ;
+                \lbuff$10$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$10  = 12'h800;
+          \lbuff$10$next  = 12'h800;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_rst, clk, width, height, allowed_cycles, full_clk);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\clk ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.register_file" *)
+module register_file(height, width, allowed_cycles, full_clk, full_rst, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$168  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
-  always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
-  assign clk = \$next\clk ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
+  assign clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.integration_2.integration_1.signals" *)
+module signals(rst, clk, height, width, new_input, new_row, end_of_frame);
+  reg \$auto$verilog_backend.cc:2184:dump_module$169  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 3'h4;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -7342,124 +7881,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 3'h4;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 3'h4;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7468,92 +8076,76 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(\pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, busy_in, rst, full_clk, full_rst, valid_out, end_out, data_out, nready, fend_out, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$4 ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$5 ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$6 ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [47:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [5:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, end_out, data_out, busy_in, nready, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , fend_out, full_clk, full_rst, rst, valid_in);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "integration_3.py:25" *)
+  wire busy_in;
+  (* src = "integration_3.py:26" *)
   output [31:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [31:0] data_out;
+  (* src = "integration_3.py:31" *)
   output end_out;
-  (* src = "integration_1.py:35" *)
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire full_rst;
+  (* src = "clk_domains.py:5" *)
   wire integration_2_clk;
-  (* src = "integration_2.py:24" *)
-  wire [111:0] integration_2_enc_out;
   (* src = "integration_2.py:25" *)
-  wire [6:0] integration_2_enc_out_ctr;
+  wire [111:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [6:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$4 ;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$5 ;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$6 ;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -7603,221 +8195,126 @@ module top(\pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, busy_in, rst, ful
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$4  = 12'h000;
-    \$next\integration_2_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$5  = 12'h000;
-    \$next\integration_2_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$6  = 12'h000;
-    \$next\integration_2_pixel_in$6  = \pixel_in$3 ;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 48'h000000000000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[47:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 6'h00;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[5:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign \integration_2_pixel_in$6  = \$next\integration_2_pixel_in$6 ;
-  assign \integration_2_pixel_in$5  = \$next\integration_2_pixel_in$5 ;
-  assign \integration_2_pixel_in$4  = \$next\integration_2_pixel_in$4 ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[5:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[47:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign \integration_2_pixel_in$6  = \pixel_in$3 ;
+  assign \integration_2_pixel_in$5  = \pixel_in$2 ;
+  assign \integration_2_pixel_in$4  = \pixel_in$1 ;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$170  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [7:0] \$23 ;
-  wire [7:0] \$24 ;
-  wire [7:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [7:0] \$32 ;
-  wire [7:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [7:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [7:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [7:0] \$51 ;
-  wire [7:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [7:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [7:0] \$66 ;
-  wire [7:0] \$67 ;
-  wire [7:0] \$7 ;
-  wire [7:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [6:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [119:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [6:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [6:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [6:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [6:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [119:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [6:0] consume = 7'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [119:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [119:0] dout;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [6:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [6:0] level;
   reg [6:0] level = 7'h00;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [6:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [6:0] produce = 7'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [6:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [119:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [6:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [119:0] r_data;
+  wire [119:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [6:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [119:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 8'h7e : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 8'h00 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 7'h7f;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 8'h00 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [6:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [119:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [6:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [119:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [119:0] w_data;
+  wire [119:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [119:0] storage [126:0];
   initial begin
     storage[0] = 120'h000000000000000000000000000000;
@@ -7948,238 +8445,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[125] = 120'h000000000000000000000000000000;
     storage[126] = 120'h000000000000000000000000000000;
   end
-  reg [119:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+  reg [119:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
   end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 7'h7f;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [6:0];
+          \level$next  = \$35 [6:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [6:0];
+          \level$next  = \$46 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 7'h00;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 7'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [6:0];
+          \level$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 120'h000000000000000000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [6:0];
+          \produce$next  = \$13 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 7'h00;
+          \produce$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 7'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 120'h000000000000000000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [6:0];
+          \consume$next  = \$22 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 7'h00;
+          \consume$next  = 7'h00;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$12 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$9 (clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$171  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [8:0] \$23 ;
-  wire [8:0] \$24 ;
-  wire [8:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [8:0] \$32 ;
-  wire [8:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [8:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [8:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [8:0] \$51 ;
-  wire [8:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [8:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [8:0] \$66 ;
-  wire [8:0] \$67 ;
-  wire [8:0] \$7 ;
-  wire [8:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [7:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [54:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [7:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [7:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [7:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [54:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [8:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [8:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [7:0] consume = 8'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [54:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [54:0] dout;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [7:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [7:0] level;
   reg [7:0] level = 8'h00;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [7:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [7:0] produce = 8'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [7:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [54:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [7:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [54:0] r_data;
+  wire [54:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [7:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [54:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 9'h0fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 8'hfe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 9'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 8'hff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 8'hfe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 9'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [7:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [54:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [7:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [54:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [54:0] w_data;
+  wire [54:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [54:0] storage [254:0];
   initial begin
     storage[0] = 55'h00000000000000;
@@ -8438,145 +8909,133 @@ module \unbuffered$12 (we, replace, re, rst, clk, writable, readable, dout, leve
     storage[253] = 55'h00000000000000;
     storage[254] = 55'h00000000000000;
   end
-  reg [54:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+  reg [54:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
   end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 8'hfe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 9'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 8'hfe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 9'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 8'hff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [7:0];
+          \level$next  = \$35 [7:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [7:0];
+          \level$next  = \$46 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 8'h00;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 8'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [7:0];
+          \level$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 55'h00000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [7:0];
+          \produce$next  = \$13 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 8'h00;
+          \produce$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 8'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 55'h00000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [7:0];
+          \consume$next  = \$22 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 8'h00;
+          \consume$next  = 8'h00;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [47:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [5:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [7:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [7:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [143:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.vbits_to_cbits" *)
+module vbits_to_cbits(enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, rst, clk, latch_input);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [31:0] data_out;
+  wire [31:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [47:0] enc_in;
+  wire [47:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [7:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -8599,6 +9058,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [7:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -8619,10 +9079,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -8649,75 +9112,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 48'h000000000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 6'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 144'h000000000000000000000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 8'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 8'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/integration_3_axi_stream.v b/verilog_src/integration_3_axi_stream.v
index 8ce2021..0b5e6e4 100644
--- a/verilog_src/integration_3_axi_stream.v
+++ b/verilog_src/integration_3_axi_stream.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,91 +477,439 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
+  input end_in;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge.U$$0" *)
+module \U$$0$5 (clk, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 6'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [55:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 56'h00000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.U$$1" *)
+module \U$$1 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -453,197 +947,292 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -660,190 +1249,435 @@ module \anonymous$1 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$10 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [6:0] \$1 ;
-  wire [118:0] \$3 ;
-  wire [118:0] \$4 ;
-  wire [118:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.U$$1" *)
+module \U$$1$2 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$150  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "merge.py:43" *)
-  input [55:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [55:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [5:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [5:0] enc_in_ctr2;
-  (* init = 112'h0000000000000000000000000000 *)
-  (* src = "merge.py:49" *)
-  output [111:0] enc_out;
-  reg [111:0] enc_out = 112'h0000000000000000000000000000;
-  (* init = 7'h00 *)
-  (* src = "merge.py:50" *)
-  output [6:0] enc_out_ctr;
-  reg [6:0] enc_out_ctr = 7'h00;
-  (* src = "merge.py:57" *)
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
   reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$150 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge.U$$1" *)
+module \U$$1$6 (clk, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$151  = 0;
+  (* src = "merge.py:74" *)
+  wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [58:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [27:0] enc_in1;
+  wire [27:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [27:0] enc_in2;
+  wire [27:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [4:0] enc_in_ctr2;
+  wire [4:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [55:0] enc_out;
+  reg [55:0] enc_out = 56'h00000000000000;
+  (* src = "merge.py:49" *)
+  reg [55:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [5:0] enc_out_ctr;
+  reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "merge.py:54" *)
-  output valid_out;
   reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
   assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
   assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
   assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
+    enc_out_ctr <= \enc_out_ctr$next ;
   always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out_ctr  = \$1 ;
+          \enc_out_ctr$next  = \$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 7'h00;
+          \enc_out_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out  = \$3 [111:0];
+          \enc_out$next  = \$6 [55:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 112'h0000000000000000000000000000;
+          \enc_out$next  = 56'h00000000000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$151 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$3  = \$6 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.U$$2" *)
+module \U$$2 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$152  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -881,197 +1715,292 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$152 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -1088,119 +2017,465 @@ module \anonymous$2 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid);
-  wire \$1 ;
-  wire [13:0] \$11 ;
-  wire [13:0] \$12 ;
-  wire [13:0] \$14 ;
-  wire [13:0] \$15 ;
-  wire [13:0] \$17 ;
-  wire [13:0] \$18 ;
-  wire \$20 ;
-  wire \$22 ;
-  wire [13:0] \$24 ;
-  wire [13:0] \$25 ;
-  wire [13:0] \$27 ;
-  wire [13:0] \$28 ;
-  wire \$3 ;
-  wire [13:0] \$30 ;
-  wire [13:0] \$31 ;
-  wire \$33 ;
-  wire \$35 ;
-  wire \$37 ;
-  wire [13:0] \$39 ;
-  wire [13:0] \$40 ;
-  wire [13:0] \$42 ;
-  wire [13:0] \$43 ;
-  wire [13:0] \$45 ;
-  wire [13:0] \$46 ;
-  wire \$48 ;
-  wire \$5 ;
-  wire \$50 ;
-  wire [13:0] \$52 ;
-  wire [13:0] \$53 ;
-  wire [13:0] \$55 ;
-  wire [13:0] \$56 ;
-  wire [13:0] \$58 ;
-  wire [13:0] \$59 ;
-  wire \$61 ;
-  wire \$63 ;
-  wire \$65 ;
-  wire \$67 ;
-  wire \$69 ;
-  wire \$7 ;
-  wire \$71 ;
-  wire \$73 ;
-  wire \$75 ;
-  wire \$77 ;
-  wire \$79 ;
-  wire \$81 ;
-  wire \$83 ;
-  wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.U$$2" *)
+module \U$$2$3 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$153  = 0;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
+  wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
+  wire [5:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "normalize.py:132" *)
+  wire clk;
+  (* src = "encode.py:99" *)
+  output [4:0] enc_ctr;
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:133" *)
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
-  (* src = "normalize.py:126" *)
-  output [4:0] ssss;
-  reg [4:0] ssss = 5'h00;
-  (* src = "normalize.py:119" *)
-  input [12:0] val_in;
-  (* src = "normalize.py:121" *)
-  input [12:0] val_in_mns;
-  (* init = 12'h000 *)
-  (* src = "normalize.py:124" *)
-  output [11:0] val_out;
-  reg [11:0] val_out = 12'h000;
-  (* src = "normalize.py:128" *)
-  input valid;
-  (* init = 1'h0 *)
-  (* src = "normalize.py:129" *)
-  reg valid_o = 1'h0;
-  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
-  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
-  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
-  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
-  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
-  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
-  assign \$22  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
-  assign \$25  = val_in + (* src = "normalize.py:67" *) 4'hf;
-  assign \$28  = val_in + (* src = "normalize.py:72" *) 5'h1f;
-  assign \$31  = val_in + (* src = "normalize.py:58" *) 6'h3f;
-  assign \$33  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
-  assign \$35  = val_in_mns[12:8] == (* src = "normalize.py:81" *) 5'h1f;
-  assign \$37  = val_in_mns[12:7] == (* src = "normalize.py:65" *) 6'h3f;
-  assign \$3  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
-  assign \$40  = val_in + (* src = "normalize.py:67" *) 7'h7f;
-  assign \$43  = val_in + (* src = "normalize.py:72" *) 8'hff;
-  assign \$46  = val_in + (* src = "normalize.py:58" *) 9'h1ff;
-  assign \$48  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
-  assign \$50  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
-  assign \$53  = val_in + (* src = "normalize.py:67" *) 10'h3ff;
-  assign \$56  = val_in + (* src = "normalize.py:72" *) 11'h7ff;
-  assign \$5  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
-  assign \$59  = val_in + (* src = "normalize.py:58" *) 12'hfff;
-  assign \$61  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
-  assign \$63  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
-  assign \$65  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
-  assign \$67  = val_in_mns[12:2] == (* src = "normalize.py:81" *) 11'h7ff;
-  assign \$69  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
+  reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    end_late <= \end_late$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    valid_late <= \valid_late$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_late$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \ssss_late$next  = 5'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \val_in_late$next  = 12'h000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_out$next  = \$2 [27:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 28'h0000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$153 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
+      1'h1:
+          \enc_ctr$next  = \$5 [4:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_ctr$next  = 5'h00;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge.U$$2" *)
+module \U$$2$7 (clk, enc_in1, enc_in_ctr1, enc_in2, enc_in_ctr2, valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$154  = 0;
+  (* src = "merge.py:74" *)
+  wire [6:0] \$1 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$3 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$4 ;
+  (* src = "merge.py:75" *)
+  wire [118:0] \$6 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:43" *)
+  input [55:0] enc_in1;
+  wire [55:0] enc_in1;
+  (* src = "merge.py:46" *)
+  input [55:0] enc_in2;
+  wire [55:0] enc_in2;
+  (* src = "merge.py:44" *)
+  input [5:0] enc_in_ctr1;
+  wire [5:0] enc_in_ctr1;
+  (* src = "merge.py:47" *)
+  input [5:0] enc_in_ctr2;
+  wire [5:0] enc_in_ctr2;
+  (* src = "merge.py:49" *)
+  output [111:0] enc_out;
+  reg [111:0] enc_out = 112'h0000000000000000000000000000;
+  (* src = "merge.py:49" *)
+  reg [111:0] \enc_out$next ;
+  (* src = "merge.py:50" *)
+  output [6:0] enc_out_ctr;
+  reg [6:0] enc_out_ctr = 7'h00;
+  (* src = "merge.py:50" *)
+  reg [6:0] \enc_out_ctr$next ;
+  (* src = "merge.py:57" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:58" *)
+  output end_out;
+  reg end_out = 1'h0;
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:53" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:54" *)
+  output valid_out;
+  reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
+  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
+  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
+  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  always @(posedge clk)
+    end_out <= \end_out$next ;
+  always @(posedge clk)
+    valid_out <= \valid_out$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    enc_out_ctr <= \enc_out_ctr$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out_ctr$next  = \$1 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out_ctr$next  = 7'h00;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
+    casez (valid_in)
+      /* src = "merge.py:72" */
+      1'h1:
+          \enc_out$next  = \$6 [111:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \enc_out$next  = 112'h0000000000000000000000000000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \valid_out$next  = 1'h0;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$154 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_out$next  = 1'h0;
+    endcase
+  end
+  assign \$3  = \$6 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize.U$$3" *)
+module \U$$3 (clk, val_in, valid, end_in, val_in_mns, ssss, val_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$155  = 0;
+  (* src = "normalize.py:156" *)
+  wire \$1 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
+  wire \$20 ;
+  (* src = "normalize.py:65" *)
+  wire \$22 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
+  wire \$3 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
+  wire \$33 ;
+  (* src = "normalize.py:81" *)
+  wire \$35 ;
+  (* src = "normalize.py:65" *)
+  wire \$37 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
+  wire \$48 ;
+  (* src = "normalize.py:81" *)
+  wire \$5 ;
+  (* src = "normalize.py:65" *)
+  wire \$50 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
+  wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
+  wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
+  wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
+  wire \$61 ;
+  (* src = "normalize.py:81" *)
+  wire \$63 ;
+  (* src = "normalize.py:81" *)
+  wire \$65 ;
+  (* src = "normalize.py:81" *)
+  wire \$67 ;
+  (* src = "normalize.py:65" *)
+  wire \$69 ;
+  (* src = "normalize.py:81" *)
+  wire \$7 ;
+  (* src = "normalize.py:81" *)
+  wire \$71 ;
+  (* src = "normalize.py:65" *)
+  wire \$73 ;
+  (* src = "normalize.py:81" *)
+  wire \$75 ;
+  (* src = "normalize.py:81" *)
+  wire \$77 ;
+  (* src = "normalize.py:65" *)
+  wire \$79 ;
+  (* src = "normalize.py:81" *)
+  wire \$81 ;
+  (* src = "normalize.py:65" *)
+  wire \$83 ;
+  (* src = "normalize.py:65" *)
+  wire \$9 ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "normalize.py:132" *)
+  input end_in;
+  wire end_in;
+  (* src = "normalize.py:133" *)
+  reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "normalize.py:126" *)
+  output [4:0] ssss;
+  reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
+  (* src = "normalize.py:119" *)
+  input [12:0] val_in;
+  wire [12:0] val_in;
+  (* src = "normalize.py:121" *)
+  input [12:0] val_in_mns;
+  wire [12:0] val_in_mns;
+  (* src = "normalize.py:124" *)
+  output [11:0] val_out;
+  reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
+  (* src = "normalize.py:128" *)
+  input valid;
+  wire valid;
+  (* src = "normalize.py:129" *)
+  reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
+  assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
+  assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
+  assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
+  assign \$18  = val_in + (* src = "normalize.py:58" *) 3'h7;
+  assign \$1  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
+  assign \$20  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
+  assign \$22  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
+  assign \$25  = val_in + (* src = "normalize.py:67" *) 4'hf;
+  assign \$28  = val_in + (* src = "normalize.py:72" *) 5'h1f;
+  assign \$31  = val_in + (* src = "normalize.py:58" *) 6'h3f;
+  assign \$33  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
+  assign \$35  = val_in_mns[12:8] == (* src = "normalize.py:81" *) 5'h1f;
+  assign \$37  = val_in_mns[12:7] == (* src = "normalize.py:65" *) 6'h3f;
+  assign \$3  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
+  assign \$40  = val_in + (* src = "normalize.py:67" *) 7'h7f;
+  assign \$43  = val_in + (* src = "normalize.py:72" *) 8'hff;
+  assign \$46  = val_in + (* src = "normalize.py:58" *) 9'h1ff;
+  assign \$48  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
+  assign \$50  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
+  assign \$53  = val_in + (* src = "normalize.py:67" *) 10'h3ff;
+  assign \$56  = val_in + (* src = "normalize.py:72" *) 11'h7ff;
+  assign \$5  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
+  assign \$59  = val_in + (* src = "normalize.py:58" *) 12'hfff;
+  assign \$61  = val_in[12] == (* src = "normalize.py:156" *) 1'h1;
+  assign \$63  = val_in_mns[12:6] == (* src = "normalize.py:81" *) 7'h7f;
+  assign \$65  = val_in_mns[12:3] == (* src = "normalize.py:81" *) 10'h3ff;
+  assign \$67  = val_in_mns[12:2] == (* src = "normalize.py:81" *) 11'h7ff;
+  assign \$69  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$71  = val_in_mns[12:5] == (* src = "normalize.py:81" *) 8'hff;
   assign \$73  = val_in_mns[12:4] == (* src = "normalize.py:65" *) 9'h1ff;
   assign \$75  = val_in_mns[12:9] == (* src = "normalize.py:81" *) 4'hf;
@@ -1210,197 +2485,292 @@ module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$155 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -1417,977 +2787,331 @@ module \anonymous$3 (val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid)
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$4 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.U$$3" *)
+module \U$$3$4 (clk, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$156  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  output end_out;
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  output valid_out;
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$5 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$6 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* init = 5'h00 *)
-  (* src = "encode.py:99" *)
-  output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$7 (end_in, ssss, val_in, rp_data, rst, clk, rp_addr, enc_out, enc_ctr, valid_in);
-  wire [32:0] \$1 ;
-  wire [32:0] \$2 ;
-  wire [5:0] \$4 ;
-  wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
-  reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
-  (* src = "encode.py:97" *)
-  output [27:0] enc_out;
-  reg [27:0] enc_out = 28'h0000000;
-  (* src = "encode.py:106" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:123" *)
-  reg end_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:107" *)
-  reg end_out = 1'h0;
-  (* src = "encode.py:88" *)
-  output [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  input [32:0] rp_data;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "encode.py:94" *)
-  input [4:0] ssss;
-  (* init = 5'h00 *)
-  (* src = "encode.py:128" *)
-  reg [4:0] ssss_late = 5'h00;
-  (* src = "encode.py:92" *)
-  input [11:0] val_in;
-  (* init = 12'h000 *)
-  (* src = "encode.py:130" *)
-  reg [11:0] val_in_late = 12'h000;
-  (* src = "encode.py:102" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "encode.py:118" *)
-  reg valid_late = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "encode.py:103" *)
-  reg valid_out = 1'h0;
-  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
-  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
-  always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
-  always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      end_late <= \$next\end_late ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      valid_late <= \$next\valid_late ;
-  always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
-    casez (rst)
-      1'h1:
-          \$next\valid_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
-    casez (rst)
-      1'h1:
-          \$next\valid_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
-    casez (rst)
-      1'h1:
-          \$next\end_late  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
-    casez (rst)
-      1'h1:
-          \$next\end_out  = 1'h0;
-    endcase
-  end
-  always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
-    casez (rst)
-      1'h1:
-          \$next\ssss_late  = 5'h00;
-    endcase
-  end
-  always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
-    casez (rst)
-      1'h1:
-          \$next\val_in_late  = 12'h000;
-    endcase
-  end
-  always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_out  = \$1 [27:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_out  = 28'h0000000;
-    endcase
-  end
-  always @* begin
-    \$next\enc_ctr  = enc_ctr;
-    casez (valid_late)
-      1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\enc_ctr  = 5'h00;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$8 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
+  reg [4:0] enc_ctr = 5'h00;
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
+  (* src = "encode.py:97" *)
+  output [27:0] enc_out;
+  reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
+  (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  output end_out;
+  wire end_in;
+  (* src = "encode.py:123" *)
+  reg end_late = 1'h0;
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
+  (* src = "encode.py:107" *)
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
+  (* src = "encode.py:88" *)
+  output [4:0] rp_addr;
+  wire [4:0] rp_addr;
+  (* src = "encode.py:89" *)
+  input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "merge.py:53" *)
+  wire rst;
+  (* src = "encode.py:94" *)
+  input [4:0] ssss;
+  wire [4:0] ssss;
+  (* src = "encode.py:128" *)
+  reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
+  (* src = "encode.py:92" *)
+  input [11:0] val_in;
+  wire [11:0] val_in;
+  (* src = "encode.py:130" *)
+  reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
+  (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  output valid_out;
+  wire valid_in;
+  (* src = "encode.py:118" *)
+  reg valid_late = 1'h0;
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
+  (* src = "encode.py:103" *)
   reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
+  assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
+  assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
+  always @(posedge clk)
+    enc_ctr <= \enc_ctr$next ;
+  always @(posedge clk)
+    enc_out <= \enc_out$next ;
+  always @(posedge clk)
+    val_in_late <= \val_in_late$next ;
+  always @(posedge clk)
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
+    valid_late <= \valid_late$next ;
   always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out_ctr  = \$1 ;
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 6'h00;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
-      1'h1:
-          \$next\enc_out  = \$3 [55:0];
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 56'h00000000000000;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$3  = \$6 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge.anonymous" *)
-(* generator = "nMigen" *)
-module \anonymous$9 (enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_in);
-  wire [5:0] \$1 ;
-  wire [58:0] \$3 ;
-  wire [58:0] \$4 ;
-  wire [58:0] \$6 ;
-  (* src = "merge.py:49" *)
-  reg [55:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:43" *)
-  input [27:0] enc_in1;
-  (* src = "merge.py:46" *)
-  input [27:0] enc_in2;
-  (* src = "merge.py:44" *)
-  input [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  input [4:0] enc_in_ctr2;
-  (* init = 56'h00000000000000 *)
-  (* src = "merge.py:49" *)
-  output [55:0] enc_out;
-  reg [55:0] enc_out = 56'h00000000000000;
-  (* init = 6'h00 *)
-  (* src = "merge.py:50" *)
-  output [5:0] enc_out_ctr;
-  reg [5:0] enc_out_ctr = 6'h00;
-  (* src = "merge.py:57" *)
-  input end_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:58" *)
-  reg end_out = 1'h0;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:53" *)
-  input valid_in;
-  (* init = 1'h0 *)
-  (* src = "merge.py:54" *)
-  reg valid_out = 1'h0;
-  assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
-  assign \$4  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
-  assign \$6  = \$4  | (* src = "merge.py:75" *) enc_in2;
-  always @(posedge clk)
-      end_out <= \$next\end_out ;
-  always @(posedge clk)
-      valid_out <= \$next\valid_out ;
-  always @(posedge clk)
-      enc_out <= \$next\enc_out ;
-  always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
   always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = \$1 ;
+          \ssss_late$next  = 5'h00;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 6'h00;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$3 [55:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 56'h00000000000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$156 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
+    casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \enc_ctr$next  = \$5 [4:0];
     endcase
-  end
-  always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
-  assign \$3  = \$6 ;
+  assign \$1  = \$2 ;
+  assign \$4  = \$5 ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.converter" *)
+module converter(enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, rst, clk, latch_output);
+  reg \$auto$verilog_backend.cc:2184:dump_module$157  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:199" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:113" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:121" *)
   wire \$41 ;
+  (* src = "converter.py:158" *)
   wire \$43 ;
+  (* src = "converter.py:192" *)
   wire \$45 ;
+  (* src = "converter.py:199" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [47:0] \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:158" *)
   wire \$51 ;
+  (* src = "converter.py:192" *)
   wire \$53 ;
+  (* src = "converter.py:199" *)
   wire \$55 ;
+  (* src = "converter.py:195" *)
   wire [7:0] \$57 ;
+  (* src = "converter.py:195" *)
   wire [7:0] \$58 ;
+  (* src = "converter.py:202" *)
   wire [7:0] \$60 ;
+  (* src = "converter.py:202" *)
   wire [7:0] \$61 ;
+  (* src = "converter.py:158" *)
   wire \$63 ;
+  (* src = "converter.py:158" *)
   wire \$65 ;
+  (* src = "converter.py:158" *)
   wire \$67 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [47:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [5:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [6:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [95:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [111:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 48'h000000000000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [47:0] enc_in;
   reg [47:0] enc_in = 48'h000000000000;
-  (* init = 6'h00 *)
+  (* src = "converter.py:66" *)
+  reg [47:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [5:0] enc_in_ctr;
   reg [5:0] enc_in_ctr = 6'h00;
+  (* src = "converter.py:67" *)
+  reg [5:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [111:0] enc_out;
+  wire [111:0] enc_out;
   (* src = "converter.py:61" *)
   input [6:0] enc_out_ctr;
-  (* init = 7'h00 *)
+  wire [6:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [6:0] enc_out_ctr_reg = 7'h00;
-  (* init = 96'h000000000000000000000000 *)
+  (* src = "converter.py:95" *)
+  reg [6:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [95:0] enc_out_latch = 96'h000000000000000000000000;
-  (* init = 112'h0000000000000000000000000000 *)
+  (* src = "converter.py:90" *)
+  reg [95:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [111:0] enc_out_reg = 112'h0000000000000000000000000000;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [111:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [2:0] fsm_state = 3'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -2410,7 +3134,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$45  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[111:96];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[111:96];
   assign \$51  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$53  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 7'h60;
   assign \$55  = enc_out_ctr_reg <= (* src = "converter.py:199" *) 7'h70;
@@ -2422,944 +3146,1132 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$67  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 6'h30;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$65 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[95:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[95:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 96'h000000000000000000000000;
+          \enc_out_latch$next  = 96'h000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$67 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
-            2'hz:
-                \$next\fsm_state  = 3'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\fsm_state  = 3'h1;
+          \fsm_state$next  = 3'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 3'h0;
+                            \fsm_state$next  = 3'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez ({ \$33 , \$31  })
-                        2'bz1:
-                            \$next\fsm_state  = 3'h3;
-                        2'b1z:
-                            \$next\fsm_state  = 3'h4;
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \fsm_state$next  = 3'h3;
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \fsm_state$next  = 3'h4;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$41 , \$37  })
-            2'bz1:
-                \$next\fsm_state  = 3'h1;
-            2'b1z:
-                \$next\fsm_state  = 3'h2;
-            2'hz:
-                \$next\fsm_state  = 3'h0;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 3'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 3'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 3'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\fsm_state  = 3'h3;
+          \fsm_state$next  = 3'h3;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 112'h0000000000000000000000000000;
+          \enc_out_reg$next  = 112'h0000000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 7'h00;
+          \enc_out_ctr_reg$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       3'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$43 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[47:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[47:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez ({ \$47 , \$45  })
-                        2'bz1:
-                            \$next\enc_in  = enc_out_reg[95:48];
-                        2'b1z:
-                            \$next\enc_in  = \$49 ;
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \enc_in$next  = enc_out_reg[95:48];
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \enc_in$next  = \$49 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\enc_in  = enc_out_latch[47:0];
+          \enc_in$next  = enc_out_latch[47:0];
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\enc_in  = enc_out_latch[95:48];
+          \enc_in$next  = enc_out_latch[95:48];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 48'h000000000000;
+          \enc_in$next  = 48'h000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$51 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[5:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[5:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 6'h30;
+                      \enc_in_ctr$next  = 6'h30;
+                      (* src = "converter.py:192" *)
                       casez ({ \$55 , \$53  })
-                        2'bz1:
-                            \$next\enc_in_ctr  = \$57 [5:0];
-                        2'b1z:
-                            \$next\enc_in_ctr  = \$60 [5:0];
+                        /* src = "converter.py:192" */
+                        2'b?1:
+                            \enc_in_ctr$next  = \$58 [5:0];
+                        /* src = "converter.py:199" */
+                        2'b1?:
+                            \enc_in_ctr$next  = \$61 [5:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\enc_in_ctr  = 6'h30;
+          \enc_in_ctr$next  = 6'h30;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\enc_in_ctr  = 6'h30;
+          \enc_in_ctr$next  = 6'h30;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 6'h00;
+          \enc_in_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$157 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      3'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       3'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$63 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       3'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_1/4" */
       3'h4:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$57  = \$58 ;
   assign \$60  = \$61 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.converter_fifo" *)
+module converter_fifo(enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, rst, clk, enc_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$158  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [47:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [54:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [47:0] enc_in;
+  wire [47:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [47:0] enc_out;
+  wire [47:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [54:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [54:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [8:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [54:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [54:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 8'hfa;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
-  \fifo$11  fifo (
+    close_full <= \close_full$next ;
+  \fifo$8  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 55'h00000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 48'h000000000000;
-    \$next\enc_out  = fifo_dout[47:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[53:48];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[54];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$158 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[54];
+  assign enc_out_ctr = fifo_r_data[53:48];
+  assign enc_out = fifo_r_data[47:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, \pixel_in$1 , \predic_in$2 , \pixel_in$3 , \predic_in$4 , \pixel_in$5 , \predic_in$6 , end_in, rst, clk, val_out, \val_out$7 , \val_out$8 , \val_out$9 , \val_out$10 , \val_out$11 , \val_out$12 , \val_out$13 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.difference" *)
+module difference(clk, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , predic_in, \predic_in$4 , \predic_in$5 , \predic_in$6 , valid_in, end_in, val_out, \val_out$7 , \val_out$8 , \val_out$9 , \val_out$10 , \val_out$11 , \val_out$12 , \val_out$13 , valid_out, end_out
+, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$159  = 0;
+  (* src = "difference.py:91" *)
   wire [12:0] \$14 ;
-  wire [12:0] \$16 ;
-  wire [12:0] \$18 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$16 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$17 ;
+  (* src = "difference.py:91" *)
   wire [12:0] \$20 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$22 ;
-  wire [12:0] \$23 ;
-  wire [13:0] \$25 ;
-  wire [13:0] \$27 ;
-  wire [12:0] \$28 ;
-  wire [13:0] \$30 ;
-  wire [13:0] \$32 ;
-  wire [12:0] \$33 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$23 ;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$26 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$28 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$29 ;
+  (* src = "difference.py:91" *)
+  wire [12:0] \$32 ;
+  (* src = "difference.py:98" *)
+  wire [13:0] \$34 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$35 ;
-  wire [13:0] \$37 ;
-  wire [12:0] \$38 ;
-  wire [13:0] \$40 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$10 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$11 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$12 ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$13 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$7 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$8 ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out$9 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$19 ;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$25 ;
+  (* src = "difference.py:90" *)
+  reg [12:0] \diff$31 ;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:55" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "difference.py:55" *)
-  input [11:0] \pixel_in$3 ;
+  input [11:0] \pixel_in$2 ;
+  wire [11:0] \pixel_in$2 ;
   (* src = "difference.py:55" *)
-  input [11:0] \pixel_in$5 ;
+  input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
-  (* src = "difference.py:58" *)
-  input [11:0] \predic_in$2 ;
+  wire [11:0] predic_in;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$4 ;
+  wire [11:0] \predic_in$4 ;
+  (* src = "difference.py:58" *)
+  input [11:0] \predic_in$5 ;
+  wire [11:0] \predic_in$5 ;
   (* src = "difference.py:58" *)
   input [11:0] \predic_in$6 ;
+  wire [11:0] \predic_in$6 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:64" *)
   output [12:0] \val_out$10 ;
   reg [12:0] \val_out$10  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$10$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$11 ;
   reg [12:0] \val_out$11  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$11$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$12 ;
   reg [12:0] \val_out$12  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$12$next ;
   (* src = "difference.py:64" *)
   output [12:0] \val_out$13 ;
   reg [12:0] \val_out$13  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$13$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$7 ;
   reg [12:0] \val_out$7  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$7$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$8 ;
   reg [12:0] \val_out$8  = 13'h0000;
-  (* init = 13'h0000 *)
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$8$next ;
   (* src = "difference.py:61" *)
   output [12:0] \val_out$9 ;
   reg [12:0] \val_out$9  = 13'h0000;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$9$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$14  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$16  = \pixel_in$1  - (* src = "difference.py:89" *) \predic_in$2 ;
-  assign \$18  = \pixel_in$3  - (* src = "difference.py:89" *) \predic_in$4 ;
-  assign \$20  = \pixel_in$5  - (* src = "difference.py:89" *) \predic_in$6 ;
-  assign \$23  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$25  = \$23  - (* src = "difference.py:90" *) 1'h1;
-  assign \$28  = \pixel_in$1  - (* src = "difference.py:90" *) \predic_in$2 ;
-  assign \$30  = \$28  - (* src = "difference.py:90" *) 1'h1;
-  assign \$33  = \pixel_in$3  - (* src = "difference.py:90" *) \predic_in$4 ;
-  assign \$35  = \$33  - (* src = "difference.py:90" *) 1'h1;
-  assign \$38  = \pixel_in$5  - (* src = "difference.py:90" *) \predic_in$6 ;
-  assign \$40  = \$38  - (* src = "difference.py:90" *) 1'h1;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$14  = pixel_in - (* src = "difference.py:91" *) predic_in;
+  assign \$17  = diff - (* src = "difference.py:98" *) 1'h1;
+  assign \$20  = \pixel_in$1  - (* src = "difference.py:91" *) \predic_in$4 ;
+  assign \$23  = \diff$19  - (* src = "difference.py:98" *) 1'h1;
+  assign \$26  = \pixel_in$2  - (* src = "difference.py:91" *) \predic_in$5 ;
+  assign \$29  = \diff$25  - (* src = "difference.py:98" *) 1'h1;
+  assign \$32  = \pixel_in$3  - (* src = "difference.py:91" *) \predic_in$6 ;
+  assign \$35  = \diff$31  - (* src = "difference.py:98" *) 1'h1;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$13  <= \$next\val_out$13 ;
+    \val_out$13  <= \val_out$13$next ;
   always @(posedge clk)
-      \val_out$12  <= \$next\val_out$12 ;
+    \val_out$9  <= \val_out$9$next ;
   always @(posedge clk)
-      \val_out$11  <= \$next\val_out$11 ;
+    \val_out$12  <= \val_out$12$next ;
   always @(posedge clk)
-      \val_out$10  <= \$next\val_out$10 ;
+    \val_out$8  <= \val_out$8$next ;
   always @(posedge clk)
-      \val_out$9  <= \$next\val_out$9 ;
+    \val_out$11  <= \val_out$11$next ;
   always @(posedge clk)
-      \val_out$8  <= \$next\val_out$8 ;
+    \val_out$7  <= \val_out$7$next ;
   always @(posedge clk)
-      \val_out$7  <= \$next\val_out$7 ;
+    \val_out$10  <= \val_out$10$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$14 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$14 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$7  = \val_out$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$9$next  = \val_out$9 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$7  = \$16 ;
+          \val_out$9$next  = \diff$31 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$7  = 13'h0000;
+          \val_out$9$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$8  = \val_out$8 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$13$next  = \val_out$13 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$8  = \$18 ;
+          \val_out$13$next  = \$35 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$8  = 13'h0000;
+          \val_out$13$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$9  = \val_out$9 ;
-    casez (valid_in)
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
       1'h1:
-          \$next\val_out$9  = \$20 ;
+          \valid_out$next  = 1'h0;
     endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$9  = 13'h0000;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\val_out$10  = \val_out$10 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$10$next  = \val_out$10 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$10  = \$22 [12:0];
+          \val_out$10$next  = \$17 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$10  = 13'h0000;
+          \val_out$10$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \diff$19  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$19  = \$20 ;
     endcase
   end
   always @* begin
-    \$next\val_out$11  = \val_out$11 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$7$next  = \val_out$7 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$11  = \$27 [12:0];
+          \val_out$7$next  = \diff$19 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$11  = 13'h0000;
+          \val_out$7$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$12  = \val_out$12 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$11$next  = \val_out$11 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$12  = \$32 [12:0];
+          \val_out$11$next  = \$23 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$12  = 13'h0000;
+          \val_out$11$next  = 13'h0000;
+    endcase
+  end
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \diff$25  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \diff$25  = \$26 ;
     endcase
   end
   always @* begin
-    \$next\val_out$13  = \val_out$13 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$8$next  = \val_out$8 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$13  = \$37 [12:0];
+          \val_out$8$next  = \diff$25 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$13  = 13'h0000;
+          \val_out$8$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \val_out$12$next  = \val_out$12 ;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          \val_out$12$next  = \$29 [12:0];
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \val_out$12$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
-    casez (rst)
+    if (\$auto$verilog_backend.cc:2184:dump_module$159 ) begin end
+    \diff$31  = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\end_out  = 1'h0;
+          \diff$31  = \$32 ;
     endcase
   end
-  assign \$22  = \$25 ;
-  assign \$27  = \$30 ;
-  assign \$32  = \$35 ;
-  assign \$37  = \$40 ;
+  assign \$16  = \$17 ;
+  assign \$22  = \$23 ;
+  assign \$28  = \$29 ;
+  assign \$34  = \$35 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , \val_in$3 , \ssss$4 , \val_in$5 , \ssss$6 , rst, clk, enc_out, enc_ctr, \enc_out$7 , \enc_ctr$8 , \enc_out$9 , \enc_ctr$10 , \enc_out$11 , \enc_ctr$12 , valid_out, end_out, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$10 ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$12 ;
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr$8 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$11 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$7 ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out$9 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$14 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$23 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$32 ;
-  (* src = "encode.py:106" *)
-  reg \$next\end_in$41 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$51 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$54 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$57 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$26 ;
-  (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$35 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.encode" *)
+module encode(clk, val_in, \val_in$1 , \val_in$2 , \val_in$3 , ssss, \ssss$4 , \ssss$5 , \ssss$6 , valid_in, end_in, enc_out, \enc_out$7 , \enc_out$8 , \enc_out$9 , enc_ctr, \enc_ctr$10 , \enc_ctr$11 , \enc_ctr$12 , valid_out, end_out
+, rst);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data$44 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$15 ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$24 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$33 ;
-  (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$42 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$16 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$25 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$34 ;
-  (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$43 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$13 ;
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$1_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$1_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$1_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$1_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$1_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$1_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$22 ;
+  wire \U$$1_valid_in ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$2_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$2_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$2_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$2_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$2_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$2_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$2_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$31 ;
+  wire \U$$2_valid_in ;
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$3_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$3_enc_out ;
+  (* src = "encode.py:106" *)
+  wire \U$$3_end_in ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$3_rp_addr ;
+  (* src = "encode.py:89" *)
+  wire [32:0] \U$$3_rp_data ;
+  (* src = "encode.py:94" *)
+  wire [4:0] \U$$3_ssss ;
+  (* src = "encode.py:92" *)
+  wire [11:0] \U$$3_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$40 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$3_valid_in ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:184" *)
   output [4:0] \enc_ctr$10 ;
+  wire [4:0] \enc_ctr$10 ;
   (* src = "encode.py:184" *)
-  output [4:0] \enc_ctr$12 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$20 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$29 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$38 ;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$47 ;
+  output [4:0] \enc_ctr$11 ;
+  wire [4:0] \enc_ctr$11 ;
   (* src = "encode.py:184" *)
-  output [4:0] \enc_ctr$8 ;
+  output [4:0] \enc_ctr$12 ;
+  wire [4:0] \enc_ctr$12 ;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:182" *)
-  output [27:0] \enc_out$11 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$19 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$28 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$37 ;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$46 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$7 ;
+  wire [27:0] \enc_out$7 ;
+  (* src = "encode.py:182" *)
+  output [27:0] \enc_out$8 ;
+  wire [27:0] \enc_out$8 ;
   (* src = "encode.py:182" *)
   output [27:0] \enc_out$9 ;
+  wire [27:0] \enc_out$9 ;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$14 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$23 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$32 ;
-  (* src = "encode.py:106" *)
-  wire \end_in$41 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$18 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:196" *)
   wire [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$51 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$54 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$57 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$14 ;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$16 ;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$18 ;
+  (* src = "encode.py:196" *)
   wire [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$52 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$55 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$58 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$27 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$36 ;
-  (* src = "encode.py:88" *)
-  wire [4:0] \rp_addr$45 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$26 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$35 ;
-  (* src = "encode.py:89" *)
-  wire [32:0] \rp_data$44 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$15 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$17 ;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$19 ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$15 ;
-  (* src = "encode.py:179" *)
-  input [4:0] \ssss$2 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$24 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$33 ;
+  wire [4:0] ssss;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$4 ;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$42 ;
+  wire [4:0] \ssss$4 ;
+  (* src = "encode.py:179" *)
+  input [4:0] \ssss$5 ;
+  wire [4:0] \ssss$5 ;
   (* src = "encode.py:179" *)
   input [4:0] \ssss$6 ;
+  wire [4:0] \ssss$6 ;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
+  wire [11:0] val_in;
   (* src = "encode.py:177" *)
   input [11:0] \val_in$1 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$16 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$25 ;
+  wire [11:0] \val_in$1 ;
   (* src = "encode.py:177" *)
-  input [11:0] \val_in$3 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$34 ;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$43 ;
+  input [11:0] \val_in$2 ;
+  wire [11:0] \val_in$2 ;
   (* src = "encode.py:177" *)
-  input [11:0] \val_in$5 ;
+  input [11:0] \val_in$3 ;
+  wire [11:0] \val_in$3 ;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$13 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$22 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$31 ;
-  (* src = "encode.py:102" *)
-  wire \valid_in$40 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$17 ;
-  \anonymous$4  \$21  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$20 ),
-    .enc_out(\enc_out$19 ),
-    .end_in(\end_in$14 ),
-    .end_out(\end_out$18 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$15 ),
-    .val_in(\val_in$16 ),
-    .valid_in(\valid_in$13 ),
-    .valid_out(\valid_out$17 )
-  );
-  \anonymous$5  \$30  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$29 ),
-    .enc_out(\enc_out$28 ),
-    .end_in(\end_in$23 ),
-    .rp_addr(\rp_addr$27 ),
-    .rp_data(\rp_data$26 ),
-    .rst(rst),
-    .ssss(\ssss$24 ),
-    .val_in(\val_in$25 ),
-    .valid_in(\valid_in$22 )
-  );
-  \anonymous$6  \$39  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$38 ),
-    .enc_out(\enc_out$37 ),
-    .end_in(\end_in$32 ),
-    .rp_addr(\rp_addr$36 ),
-    .rp_data(\rp_data$35 ),
-    .rst(rst),
-    .ssss(\ssss$33 ),
-    .val_in(\val_in$34 ),
-    .valid_in(\valid_in$31 )
-  );
-  \anonymous$7  \$48  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$47 ),
-    .enc_out(\enc_out$46 ),
-    .end_in(\end_in$41 ),
-    .rp_addr(\rp_addr$45 ),
-    .rp_data(\rp_data$44 ),
-    .rst(rst),
-    .ssss(\ssss$42 ),
-    .val_in(\val_in$43 ),
-    .valid_in(\valid_in$40 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -3376,692 +4288,599 @@ module encode(end_in, valid_in, ssss, \val_in$1 , \ssss$2 , \val_in$3 , \ssss$4
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
-  reg [3:0] _0_;
-  reg [3:0] _1_;
-  reg [3:0] _2_;
-  reg [3:0] _3_;
+  reg [32:0] _0_;
+  reg [32:0] _1_;
+  reg [32:0] _2_;
+  reg [32:0] _3_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr ;
-    _1_ <= \$next\mem_r_addr$51 ;
-    _2_ <= \$next\mem_r_addr$54 ;
-    _3_ <= \$next\mem_r_addr$57 ;
-  end
-  assign mem_r_data = mem[_0_];
-  assign \mem_r_data$52  = mem[_1_];
-  assign \mem_r_data$55  = mem[_2_];
-  assign \mem_r_data$58  = mem[_3_];
-  always @* begin
-    \$next\val_in$16  = 12'h000;
-    \$next\val_in$16  = val_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$22  = 1'h0;
-    \$next\valid_in$22  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$24  = 5'h00;
-    \$next\ssss$24  = \ssss$2 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$51  = 4'h0;
-    \$next\mem_r_addr$51  = \rp_addr$27 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$26  = 33'h000000000;
-    \$next\rp_data$26  = \mem_r_data$52 ;
-  end
-  always @* begin
-    \$next\enc_out$7  = 28'h0000000;
-    \$next\enc_out$7  = \enc_out$28 ;
-  end
-  always @* begin
-    \$next\enc_ctr$8  = 5'h00;
-    \$next\enc_ctr$8  = \enc_ctr$29 ;
-  end
-  always @* begin
-    \$next\val_in$34  = 12'h000;
-    \$next\val_in$34  = \val_in$3 ;
-  end
-  always @* begin
-    \$next\end_in$32  = 1'h0;
-    \$next\end_in$32  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$31  = 1'h0;
-    \$next\valid_in$31  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$33  = 5'h00;
-    \$next\ssss$33  = \ssss$4 ;
-  end
-  always @* begin
-    \$next\valid_in$13  = 1'h0;
-    \$next\valid_in$13  = valid_in;
-  end
-  always @* begin
-    \$next\mem_r_addr$54  = 4'h0;
-    \$next\mem_r_addr$54  = \rp_addr$36 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$35  = 33'h000000000;
-    \$next\rp_data$35  = \mem_r_data$55 ;
-  end
-  always @* begin
-    \$next\enc_out$9  = 28'h0000000;
-    \$next\enc_out$9  = \enc_out$37 ;
-  end
-  always @* begin
-    \$next\enc_ctr$10  = 5'h00;
-    \$next\enc_ctr$10  = \enc_ctr$38 ;
-  end
-  always @* begin
-    \$next\val_in$43  = 12'h000;
-    \$next\val_in$43  = \val_in$5 ;
-  end
-  always @* begin
-    \$next\end_in$41  = 1'h0;
-    \$next\end_in$41  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$40  = 1'h0;
-    \$next\valid_in$40  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$42  = 5'h00;
-    \$next\ssss$42  = \ssss$6 ;
-  end
-  always @* begin
-    \$next\mem_r_addr$57  = 4'h0;
-    \$next\mem_r_addr$57  = \rp_addr$45 [3:0];
-  end
-  always @* begin
-    \$next\rp_data$44  = 33'h000000000;
-    \$next\rp_data$44  = \mem_r_data$58 ;
-  end
-  always @* begin
-    \$next\ssss$15  = 5'h00;
-    \$next\ssss$15  = ssss;
-  end
-  always @* begin
-    \$next\enc_out$11  = 28'h0000000;
-    \$next\enc_out$11  = \enc_out$46 ;
-  end
-  always @* begin
-    \$next\enc_ctr$12  = 5'h00;
-    \$next\enc_ctr$12  = \enc_ctr$47 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$17 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$18 ;
-  end
-  always @* begin
-    \$next\mem_r_addr  = 4'h0;
-    \$next\mem_r_addr  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = mem_r_data;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$19 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$20 ;
-  end
-  always @* begin
-    \$next\val_in$25  = 12'h000;
-    \$next\val_in$25  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\end_in$23  = 1'h0;
-    \$next\end_in$23  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \enc_ctr$12  = \$next\enc_ctr$12 ;
-  assign \enc_out$11  = \$next\enc_out$11 ;
-  assign \rp_data$44  = \$next\rp_data$44 ;
-  assign \mem_r_addr$57  = \$next\mem_r_addr$57 ;
-  assign \ssss$42  = \$next\ssss$42 ;
-  assign \valid_in$40  = \$next\valid_in$40 ;
-  assign \end_in$41  = \$next\end_in$41 ;
-  assign \val_in$43  = \$next\val_in$43 ;
-  assign \enc_ctr$10  = \$next\enc_ctr$10 ;
-  assign \enc_out$9  = \$next\enc_out$9 ;
-  assign \rp_data$35  = \$next\rp_data$35 ;
-  assign \mem_r_addr$54  = \$next\mem_r_addr$54 ;
-  assign \ssss$33  = \$next\ssss$33 ;
-  assign \valid_in$31  = \$next\valid_in$31 ;
-  assign \end_in$32  = \$next\end_in$32 ;
-  assign \val_in$34  = \$next\val_in$34 ;
-  assign \enc_ctr$8  = \$next\enc_ctr$8 ;
-  assign \enc_out$7  = \$next\enc_out$7 ;
-  assign \rp_data$26  = \$next\rp_data$26 ;
-  assign \mem_r_addr$51  = \$next\mem_r_addr$51 ;
-  assign \ssss$24  = \$next\ssss$24 ;
-  assign \valid_in$22  = \$next\valid_in$22 ;
-  assign \end_in$23  = \$next\end_in$23 ;
-  assign \val_in$25  = \$next\val_in$25 ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign mem_r_addr = \$next\mem_r_addr ;
-  assign \ssss$15  = \$next\ssss$15 ;
-  assign \valid_in$13  = \$next\valid_in$13 ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign \val_in$16  = \$next\val_in$16 ;
+    _0_ <= mem[mem_r_addr];
+    _1_ <= mem[\mem_r_addr$14 ];
+    _2_ <= mem[\mem_r_addr$16 ];
+    _3_ <= mem[\mem_r_addr$18 ];
+  end
+  assign mem_r_data = _0_;
+  assign \mem_r_data$15  = _1_;
+  assign \mem_r_data$17  = _2_;
+  assign \mem_r_data$19  = _3_;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$2  \U$$1  (
+    .clk(clk),
+    .enc_ctr(\U$$1_enc_ctr ),
+    .enc_out(\U$$1_enc_out ),
+    .end_in(\U$$1_end_in ),
+    .rp_addr(\U$$1_rp_addr ),
+    .rp_data(\U$$1_rp_data ),
+    .rst(rst),
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .valid_in(\U$$1_valid_in )
+  );
+  \U$$2$3  \U$$2  (
+    .clk(clk),
+    .enc_ctr(\U$$2_enc_ctr ),
+    .enc_out(\U$$2_enc_out ),
+    .end_in(\U$$2_end_in ),
+    .rp_addr(\U$$2_rp_addr ),
+    .rp_data(\U$$2_rp_data ),
+    .rst(rst),
+    .ssss(\U$$2_ssss ),
+    .val_in(\U$$2_val_in ),
+    .valid_in(\U$$2_valid_in )
+  );
+  \U$$3$4  \U$$3  (
+    .clk(clk),
+    .enc_ctr(\U$$3_enc_ctr ),
+    .enc_out(\U$$3_enc_out ),
+    .end_in(\U$$3_end_in ),
+    .rp_addr(\U$$3_rp_addr ),
+    .rp_data(\U$$3_rp_data ),
+    .rst(rst),
+    .ssss(\U$$3_ssss ),
+    .val_in(\U$$3_val_in ),
+    .valid_in(\U$$3_valid_in )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign \enc_ctr$12  = \U$$3_enc_ctr ;
+  assign \enc_out$9  = \U$$3_enc_out ;
+  assign \U$$3_rp_data  = \mem_r_data$19 ;
+  assign \mem_r_addr$18  = \U$$3_rp_addr [3:0];
+  assign \U$$3_ssss  = \ssss$6 ;
+  assign \U$$3_valid_in  = valid_in;
+  assign \U$$3_end_in  = end_in;
+  assign \U$$3_val_in  = \val_in$3 ;
+  assign \enc_ctr$11  = \U$$2_enc_ctr ;
+  assign \enc_out$8  = \U$$2_enc_out ;
+  assign \U$$2_rp_data  = \mem_r_data$17 ;
+  assign \mem_r_addr$16  = \U$$2_rp_addr [3:0];
+  assign \U$$2_ssss  = \ssss$5 ;
+  assign \U$$2_valid_in  = valid_in;
+  assign \U$$2_end_in  = end_in;
+  assign \U$$2_val_in  = \val_in$2 ;
+  assign \enc_ctr$10  = \U$$1_enc_ctr ;
+  assign \enc_out$7  = \U$$1_enc_out ;
+  assign \U$$1_rp_data  = \mem_r_data$15 ;
+  assign \mem_r_addr$14  = \U$$1_rp_addr [3:0];
+  assign \U$$1_ssss  = \ssss$4 ;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = mem_r_data;
+  assign mem_r_addr = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(clk, w_en, w_data, r_rdy, r_data, r_en, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$160  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [7:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [119:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [119:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [119:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [119:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [7:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [7:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [119:0] r_data;
+  wire [119:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [119:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [119:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [6:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [119:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [119:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [119:0] w_data;
+  wire [119:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 120'h000000000000000000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 120'h000000000000000000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$160 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 8'h00;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$11 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.converter_fifo.fifo" *)
+module \fifo$8 (clk, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$161  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [8:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [54:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [54:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [54:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [54:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [8:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [8:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [54:0] r_data;
+  wire [54:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [54:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [54:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [7:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
-  always @(posedge clk)
-      readable <= \$next\readable ;
-  \unbuffered$12  unbuffered (
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [54:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [54:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [54:0] w_data;
+  wire [54:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  always @(posedge clk)
+    r_rdy <= \r_rdy$next ;
+  \unbuffered$9  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 55'h00000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 55'h00000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$161 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 9'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.force_end" *)
+module force_end(clk, allowed_cycles, valid_in, fend, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$162  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$162 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.top_module.vbits_to_cbits.input_handler" *)
+module input_handler(clk, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$163  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
-  wire [9:0] \$43 ;
-  wire [8:0] \$44 ;
-  wire [9:0] \$46 ;
-  wire [8:0] \$48 ;
-  wire [8:0] \$49 ;
-  wire \$5 ;
-  wire [8:0] \$51 ;
-  wire [8:0] \$52 ;
-  wire \$54 ;
-  wire [9:0] \$56 ;
-  wire [8:0] \$57 ;
-  wire [9:0] \$59 ;
-  wire [8:0] \$61 ;
-  wire [8:0] \$62 ;
-  wire [8:0] \$64 ;
-  wire [8:0] \$65 ;
-  wire \$7 ;
-  wire \$9 ;
-  (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [7:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [7:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [143:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [47:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [5:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [5:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [47:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [7:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [7:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
+  (* src = "vbits_to_cbits.py:290" *)
+  wire [9:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
+  wire [8:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
+  wire [9:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
+  wire [8:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
+  wire [8:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
+  wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
+  wire [8:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
+  wire [8:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
+  wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
+  wire [9:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
+  wire [8:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
+  wire [9:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
+  wire [8:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
+  wire [8:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
+  wire [8:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
+  wire [8:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
+  wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
+  wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 8'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [7:0] buff_consum;
   reg [7:0] buff_consum = 8'h00;
-  (* init = 8'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [7:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [7:0] buff_free = 8'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [7:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 144'h000000000000000000000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [143:0] buffer;
   reg [143:0] buffer = 144'h000000000000000000000000000000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [143:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [47:0] enc_in;
-  (* init = 48'h000000000000 *)
+  wire [47:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [47:0] enc_in_buff = 48'h000000000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [47:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [5:0] enc_in_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [5:0] enc_in_ctr_buff = 6'h00;
-  (* init = 6'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [5:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [5:0] enc_in_ctr_reg = 6'h00;
-  (* init = 48'h000000000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [5:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [47:0] enc_in_reg = 48'h000000000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [47:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [7:0] new_buff_consum;
+  reg [7:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [7:0] new_buff_free;
+  reg [7:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4092,409 +4911,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 6'h00;
+          \enc_in_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [143:0];
+          \buffer$next  = \$30 [143:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [143:0];
+                      \buffer$next  = \$37 [143:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 144'h000000000000000000000000000000000000;
+          \buffer$next  = 144'h000000000000000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    new_buff_free = 8'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [7:0];
-      1'hz:
+          new_buff_free = \$46 [7:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [7:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [7:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [7:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [7:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    new_buff_consum = 8'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [7:0];
-      1'hz:
+          new_buff_consum = \$59 [7:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [7:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [7:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [7:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [7:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 8'h00;
+          \buff_consum$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 8'h90;
+          \buff_free$next  = 8'h90;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 8'h00;
+          \buff_free$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 48'h000000000000;
+          \enc_in_buff$next  = 48'h000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 6'h00;
+          \enc_in_ctr_buff$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$163 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 48'h000000000000;
+          \enc_in_reg$next  = 48'h000000000000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -4505,132 +5593,15 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, full_clk, full_rst, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, clk, valid_in);
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$13 ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$15 ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in$17 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$14 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$16 ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in$18 ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$39 ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$41 ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss$43 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$38 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$40 ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in$42 ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$50 ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$52 ;
-  (* src = "merge.py:109" *)
-  reg [27:0] \$next\merge_enc_in$54 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$51 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$53 ;
-  (* src = "merge.py:110" *)
-  reg [4:0] \$next\merge_enc_in_ctr$55 ;
-  (* src = "merge.py:120" *)
-  reg \$next\merge_end_in ;
-  (* src = "merge.py:116" *)
-  reg \$next\merge_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$26 ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$28 ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in$30 ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$27 ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$29 ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns$31 ;
-  (* src = "predictor_p1_c4_px4.py:79" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_px4.py:66" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$4 ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$5 ;
-  (* src = "predictor_p1_c4_px4.py:63" *)
-  reg [11:0] \$next\predictor_pixel_in$6 ;
-  (* src = "predictor_p1_c4_px4.py:75" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1" *)
+module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, enc_out, enc_out_ctr, valid_out, end_out, rst, clk, full_clk, full_rst, end_of_frame);
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "difference.py:71" *)
   wire difference_end_in;
   (* src = "difference.py:72" *)
@@ -4640,16 +5611,16 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "difference.py:55" *)
   wire [11:0] \difference_pixel_in$13 ;
   (* src = "difference.py:55" *)
-  wire [11:0] \difference_pixel_in$15 ;
+  wire [11:0] \difference_pixel_in$14 ;
   (* src = "difference.py:55" *)
-  wire [11:0] \difference_pixel_in$17 ;
+  wire [11:0] \difference_pixel_in$15 ;
   (* src = "difference.py:58" *)
   wire [11:0] difference_predic_in;
   (* src = "difference.py:58" *)
-  wire [11:0] \difference_predic_in$14 ;
-  (* src = "difference.py:58" *)
   wire [11:0] \difference_predic_in$16 ;
   (* src = "difference.py:58" *)
+  wire [11:0] \difference_predic_in$17 ;
+  (* src = "difference.py:58" *)
   wire [11:0] \difference_predic_in$18 ;
   (* src = "difference.py:61" *)
   wire [12:0] difference_val_out;
@@ -4671,26 +5642,28 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [111:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [6:0] enc_out_ctr;
+  wire [6:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:184" *)
-  wire [4:0] \encode_enc_ctr$45 ;
-  (* src = "encode.py:184" *)
   wire [4:0] \encode_enc_ctr$47 ;
   (* src = "encode.py:184" *)
+  wire [4:0] \encode_enc_ctr$48 ;
+  (* src = "encode.py:184" *)
   wire [4:0] \encode_enc_ctr$49 ;
   (* src = "encode.py:182" *)
   wire [27:0] encode_enc_out;
   (* src = "encode.py:182" *)
   wire [27:0] \encode_enc_out$44 ;
   (* src = "encode.py:182" *)
-  wire [27:0] \encode_enc_out$46 ;
+  wire [27:0] \encode_enc_out$45 ;
   (* src = "encode.py:182" *)
-  wire [27:0] \encode_enc_out$48 ;
+  wire [27:0] \encode_enc_out$46 ;
   (* src = "encode.py:191" *)
   wire encode_end_in;
   (* src = "encode.py:192" *)
@@ -4698,28 +5671,30 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "encode.py:179" *)
   wire [4:0] encode_ssss;
   (* src = "encode.py:179" *)
-  wire [4:0] \encode_ssss$39 ;
-  (* src = "encode.py:179" *)
   wire [4:0] \encode_ssss$41 ;
   (* src = "encode.py:179" *)
+  wire [4:0] \encode_ssss$42 ;
+  (* src = "encode.py:179" *)
   wire [4:0] \encode_ssss$43 ;
   (* src = "encode.py:177" *)
   wire [11:0] encode_val_in;
   (* src = "encode.py:177" *)
   wire [11:0] \encode_val_in$38 ;
   (* src = "encode.py:177" *)
-  wire [11:0] \encode_val_in$40 ;
+  wire [11:0] \encode_val_in$39 ;
   (* src = "encode.py:177" *)
-  wire [11:0] \encode_val_in$42 ;
+  wire [11:0] \encode_val_in$40 ;
   (* src = "encode.py:187" *)
   wire encode_valid_in;
   (* src = "encode.py:188" *)
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
@@ -4729,23 +5704,25 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "merge.py:109" *)
   wire [27:0] merge_enc_in;
   (* src = "merge.py:109" *)
   wire [27:0] \merge_enc_in$50 ;
   (* src = "merge.py:109" *)
-  wire [27:0] \merge_enc_in$52 ;
+  wire [27:0] \merge_enc_in$51 ;
   (* src = "merge.py:109" *)
-  wire [27:0] \merge_enc_in$54 ;
+  wire [27:0] \merge_enc_in$52 ;
   (* src = "merge.py:110" *)
   wire [4:0] merge_enc_in_ctr;
   (* src = "merge.py:110" *)
-  wire [4:0] \merge_enc_in_ctr$51 ;
-  (* src = "merge.py:110" *)
   wire [4:0] \merge_enc_in_ctr$53 ;
   (* src = "merge.py:110" *)
+  wire [4:0] \merge_enc_in_ctr$54 ;
+  (* src = "merge.py:110" *)
   wire [4:0] \merge_enc_in_ctr$55 ;
   (* src = "merge.py:112" *)
   wire [111:0] merge_enc_out;
@@ -4766,27 +5743,27 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "normalize.py:201" *)
   wire [4:0] normalize_ssss;
   (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$32 ;
-  (* src = "normalize.py:201" *)
-  wire [4:0] \normalize_ssss$34 ;
+  wire [4:0] \normalize_ssss$35 ;
   (* src = "normalize.py:201" *)
   wire [4:0] \normalize_ssss$36 ;
+  (* src = "normalize.py:201" *)
+  wire [4:0] \normalize_ssss$37 ;
   (* src = "normalize.py:194" *)
   wire [12:0] normalize_val_in;
   (* src = "normalize.py:194" *)
   wire [12:0] \normalize_val_in$26 ;
   (* src = "normalize.py:194" *)
-  wire [12:0] \normalize_val_in$28 ;
+  wire [12:0] \normalize_val_in$27 ;
   (* src = "normalize.py:194" *)
-  wire [12:0] \normalize_val_in$30 ;
+  wire [12:0] \normalize_val_in$28 ;
   (* src = "normalize.py:199" *)
   wire [11:0] normalize_val_out;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$33 ;
+  wire [11:0] \normalize_val_out$32 ;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$35 ;
+  wire [11:0] \normalize_val_out$33 ;
   (* src = "normalize.py:199" *)
-  wire [11:0] \normalize_val_out$37 ;
+  wire [11:0] \normalize_val_out$34 ;
   (* src = "normalize.py:203" *)
   wire normalize_valid_in;
   (* src = "normalize.py:204" *)
@@ -4794,19 +5771,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   (* src = "normalize.py:196" *)
   wire [12:0] normalize_vals_in_mns;
   (* src = "normalize.py:196" *)
-  wire [12:0] \normalize_vals_in_mns$27 ;
-  (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$29 ;
   (* src = "normalize.py:196" *)
+  wire [12:0] \normalize_vals_in_mns$30 ;
+  (* src = "normalize.py:196" *)
   wire [12:0] \normalize_vals_in_mns$31 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_1.py:23" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_1.py:24" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "predictor_p1_c4_px4.py:79" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_px4.py:80" *)
@@ -4849,6 +5830,7 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire [15:0] register_file_width;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -4857,21 +5839,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   difference difference (
     .clk(clk),
     .end_in(difference_end_in),
     .end_out(difference_end_out),
     .pixel_in(difference_pixel_in),
     .\pixel_in$1 (\difference_pixel_in$13 ),
+    .\pixel_in$2 (\difference_pixel_in$14 ),
     .\pixel_in$3 (\difference_pixel_in$15 ),
-    .\pixel_in$5 (\difference_pixel_in$17 ),
     .predic_in(difference_predic_in),
-    .\predic_in$2 (\difference_predic_in$14 ),
     .\predic_in$4 (\difference_predic_in$16 ),
+    .\predic_in$5 (\difference_predic_in$17 ),
     .\predic_in$6 (\difference_predic_in$18 ),
     .rst(rst),
     .val_out(difference_val_out),
@@ -4889,23 +5873,23 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .clk(clk),
     .enc_ctr(encode_enc_ctr),
     .\enc_ctr$10 (\encode_enc_ctr$47 ),
+    .\enc_ctr$11 (\encode_enc_ctr$48 ),
     .\enc_ctr$12 (\encode_enc_ctr$49 ),
-    .\enc_ctr$8 (\encode_enc_ctr$45 ),
     .enc_out(encode_enc_out),
-    .\enc_out$11 (\encode_enc_out$48 ),
     .\enc_out$7 (\encode_enc_out$44 ),
+    .\enc_out$8 (\encode_enc_out$45 ),
     .\enc_out$9 (\encode_enc_out$46 ),
     .end_in(encode_end_in),
     .end_out(encode_end_out),
     .rst(rst),
     .ssss(encode_ssss),
-    .\ssss$2 (\encode_ssss$39 ),
     .\ssss$4 (\encode_ssss$41 ),
+    .\ssss$5 (\encode_ssss$42 ),
     .\ssss$6 (\encode_ssss$43 ),
     .val_in(encode_val_in),
     .\val_in$1 (\encode_val_in$38 ),
+    .\val_in$2 (\encode_val_in$39 ),
     .\val_in$3 (\encode_val_in$40 ),
-    .\val_in$5 (\encode_val_in$42 ),
     .valid_in(encode_valid_in),
     .valid_out(encode_valid_out)
   );
@@ -4920,11 +5904,11 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .clk(clk),
     .enc_in(merge_enc_in),
     .\enc_in$1 (\merge_enc_in$50 ),
+    .\enc_in$2 (\merge_enc_in$51 ),
     .\enc_in$3 (\merge_enc_in$52 ),
-    .\enc_in$5 (\merge_enc_in$54 ),
     .enc_in_ctr(merge_enc_in_ctr),
-    .\enc_in_ctr$2 (\merge_enc_in_ctr$51 ),
     .\enc_in_ctr$4 (\merge_enc_in_ctr$53 ),
+    .\enc_in_ctr$5 (\merge_enc_in_ctr$54 ),
     .\enc_in_ctr$6 (\merge_enc_in_ctr$55 ),
     .enc_out(merge_enc_out),
     .enc_out_ctr(merge_enc_out_ctr),
@@ -4940,22 +5924,22 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .end_out(normalize_end_out),
     .rst(rst),
     .ssss(normalize_ssss),
+    .\ssss$10 (\normalize_ssss$35 ),
     .\ssss$11 (\normalize_ssss$36 ),
-    .\ssss$7 (\normalize_ssss$32 ),
-    .\ssss$9 (\normalize_ssss$34 ),
+    .\ssss$12 (\normalize_ssss$37 ),
     .val_in(normalize_val_in),
     .\val_in$1 (\normalize_val_in$26 ),
+    .\val_in$2 (\normalize_val_in$27 ),
     .\val_in$3 (\normalize_val_in$28 ),
-    .\val_in$5 (\normalize_val_in$30 ),
     .val_out(normalize_val_out),
-    .\val_out$10 (\normalize_val_out$35 ),
-    .\val_out$12 (\normalize_val_out$37 ),
+    .\val_out$7 (\normalize_val_out$32 ),
     .\val_out$8 (\normalize_val_out$33 ),
+    .\val_out$9 (\normalize_val_out$34 ),
     .valid_in(normalize_valid_in),
     .valid_out(normalize_valid_out),
     .vals_in_mns(normalize_vals_in_mns),
-    .\vals_in_mns$2 (\normalize_vals_in_mns$27 ),
     .\vals_in_mns$4 (\normalize_vals_in_mns$29 ),
+    .\vals_in_mns$5 (\normalize_vals_in_mns$30 ),
     .\vals_in_mns$6 (\normalize_vals_in_mns$31 )
   );
   predictor predictor (
@@ -4994,388 +5978,126 @@ module integration_1(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , rst, fu
     .new_input(signals_new_input),
     .new_row(signals_new_row),
     .rst(rst),
-    .width(signals_width)
-  );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = register_file_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = register_file_width;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_pixel_in$13  = 12'h000;
-    \$next\difference_pixel_in$13  = \predictor_pixel_out$7 ;
-  end
-  always @* begin
-    \$next\difference_pixel_in$15  = 12'h000;
-    \$next\difference_pixel_in$15  = \predictor_pixel_out$8 ;
-  end
-  always @* begin
-    \$next\difference_pixel_in$17  = 12'h000;
-    \$next\difference_pixel_in$17  = \predictor_pixel_out$9 ;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_predic_in$14  = 12'h000;
-    \$next\difference_predic_in$14  = \predictor_predic_out$10 ;
-  end
-  always @* begin
-    \$next\difference_predic_in$16  = 12'h000;
-    \$next\difference_predic_in$16  = \predictor_predic_out$11 ;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = register_file_allowed_cycles;
-  end
-  always @* begin
-    \$next\difference_predic_in$18  = 12'h000;
-    \$next\difference_predic_in$18  = \predictor_predic_out$12 ;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_val_in$26  = 13'h0000;
-    \$next\normalize_val_in$26  = \difference_val_out$19 ;
-  end
-  always @* begin
-    \$next\normalize_val_in$28  = 13'h0000;
-    \$next\normalize_val_in$28  = \difference_val_out$20 ;
-  end
-  always @* begin
-    \$next\normalize_val_in$30  = 13'h0000;
-    \$next\normalize_val_in$30  = \difference_val_out$21 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$22 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$27  = 13'h0000;
-    \$next\normalize_vals_in_mns$27  = \difference_val_out$23 ;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$29  = 13'h0000;
-    \$next\normalize_vals_in_mns$29  = \difference_val_out$24 ;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns$31  = 13'h0000;
-    \$next\normalize_vals_in_mns$31  = \difference_val_out$25 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_val_in$38  = 12'h000;
-    \$next\encode_val_in$38  = \normalize_val_out$33 ;
-  end
-  always @* begin
-    \$next\encode_val_in$40  = 12'h000;
-    \$next\encode_val_in$40  = \normalize_val_out$35 ;
-  end
-  always @* begin
-    \$next\encode_val_in$42  = 12'h000;
-    \$next\encode_val_in$42  = \normalize_val_out$37 ;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\encode_ssss$39  = 5'h00;
-    \$next\encode_ssss$39  = \normalize_ssss$32 ;
-  end
-  always @* begin
-    \$next\encode_ssss$41  = 5'h00;
-    \$next\encode_ssss$41  = \normalize_ssss$34 ;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\encode_ssss$43  = 5'h00;
-    \$next\encode_ssss$43  = \normalize_ssss$36 ;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\merge_enc_in  = 28'h0000000;
-    \$next\merge_enc_in  = encode_enc_out;
-  end
-  always @* begin
-    \$next\merge_enc_in$50  = 28'h0000000;
-    \$next\merge_enc_in$50  = \encode_enc_out$44 ;
-  end
-  always @* begin
-    \$next\merge_enc_in$52  = 28'h0000000;
-    \$next\merge_enc_in$52  = \encode_enc_out$46 ;
-  end
-  always @* begin
-    \$next\merge_enc_in$54  = 28'h0000000;
-    \$next\merge_enc_in$54  = \encode_enc_out$48 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr  = 5'h00;
-    \$next\merge_enc_in_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$51  = 5'h00;
-    \$next\merge_enc_in_ctr$51  = \encode_enc_ctr$45 ;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$53  = 5'h00;
-    \$next\merge_enc_in_ctr$53  = \encode_enc_ctr$47 ;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\merge_enc_in_ctr$55  = 5'h00;
-    \$next\merge_enc_in_ctr$55  = \encode_enc_ctr$49 ;
-  end
-  always @* begin
-    \$next\merge_valid_in  = 1'h0;
-    \$next\merge_valid_in  = encode_valid_out;
-  end
-  always @* begin
-    \$next\merge_end_in  = 1'h0;
-    \$next\merge_end_in  = encode_end_out;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = merge_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = merge_enc_out_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = merge_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = merge_end_out;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$4  = 12'h000;
-    \$next\predictor_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$5  = 12'h000;
-    \$next\predictor_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\predictor_pixel_in$6  = 12'h000;
-    \$next\predictor_pixel_in$6  = \pixel_in$3 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign merge_end_in = \$next\merge_end_in ;
-  assign merge_valid_in = \$next\merge_valid_in ;
-  assign \merge_enc_in_ctr$55  = \$next\merge_enc_in_ctr$55 ;
-  assign \merge_enc_in_ctr$53  = \$next\merge_enc_in_ctr$53 ;
-  assign \merge_enc_in_ctr$51  = \$next\merge_enc_in_ctr$51 ;
-  assign merge_enc_in_ctr = \$next\merge_enc_in_ctr ;
-  assign \merge_enc_in$54  = \$next\merge_enc_in$54 ;
-  assign \merge_enc_in$52  = \$next\merge_enc_in$52 ;
-  assign \merge_enc_in$50  = \$next\merge_enc_in$50 ;
-  assign merge_enc_in = \$next\merge_enc_in ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign \encode_ssss$43  = \$next\encode_ssss$43 ;
-  assign \encode_ssss$41  = \$next\encode_ssss$41 ;
-  assign \encode_ssss$39  = \$next\encode_ssss$39 ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign \encode_val_in$42  = \$next\encode_val_in$42 ;
-  assign \encode_val_in$40  = \$next\encode_val_in$40 ;
-  assign \encode_val_in$38  = \$next\encode_val_in$38 ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign \normalize_vals_in_mns$31  = \$next\normalize_vals_in_mns$31 ;
-  assign \normalize_vals_in_mns$29  = \$next\normalize_vals_in_mns$29 ;
-  assign \normalize_vals_in_mns$27  = \$next\normalize_vals_in_mns$27 ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign \normalize_val_in$30  = \$next\normalize_val_in$30 ;
-  assign \normalize_val_in$28  = \$next\normalize_val_in$28 ;
-  assign \normalize_val_in$26  = \$next\normalize_val_in$26 ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign \difference_predic_in$18  = \$next\difference_predic_in$18 ;
-  assign \difference_predic_in$16  = \$next\difference_predic_in$16 ;
-  assign \difference_predic_in$14  = \$next\difference_predic_in$14 ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign \difference_pixel_in$17  = \$next\difference_pixel_in$17 ;
-  assign \difference_pixel_in$15  = \$next\difference_pixel_in$15 ;
-  assign \difference_pixel_in$13  = \$next\difference_pixel_in$13 ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign \predictor_pixel_in$6  = \$next\predictor_pixel_in$6 ;
-  assign \predictor_pixel_in$5  = \$next\predictor_pixel_in$5 ;
-  assign \predictor_pixel_in$4  = \$next\predictor_pixel_in$4 ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+    .width(signals_width)
+  );
+  assign end_out = merge_end_out;
+  assign valid_out = merge_valid_out;
+  assign enc_out_ctr = merge_enc_out_ctr;
+  assign enc_out = merge_enc_out;
+  assign merge_end_in = encode_end_out;
+  assign merge_valid_in = encode_valid_out;
+  assign \merge_enc_in_ctr$55  = \encode_enc_ctr$49 ;
+  assign \merge_enc_in_ctr$54  = \encode_enc_ctr$48 ;
+  assign \merge_enc_in_ctr$53  = \encode_enc_ctr$47 ;
+  assign merge_enc_in_ctr = encode_enc_ctr;
+  assign \merge_enc_in$52  = \encode_enc_out$46 ;
+  assign \merge_enc_in$51  = \encode_enc_out$45 ;
+  assign \merge_enc_in$50  = \encode_enc_out$44 ;
+  assign merge_enc_in = encode_enc_out;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign \encode_ssss$43  = \normalize_ssss$37 ;
+  assign \encode_ssss$42  = \normalize_ssss$36 ;
+  assign \encode_ssss$41  = \normalize_ssss$35 ;
+  assign encode_ssss = normalize_ssss;
+  assign \encode_val_in$40  = \normalize_val_out$34 ;
+  assign \encode_val_in$39  = \normalize_val_out$33 ;
+  assign \encode_val_in$38  = \normalize_val_out$32 ;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign \normalize_vals_in_mns$31  = \difference_val_out$25 ;
+  assign \normalize_vals_in_mns$30  = \difference_val_out$24 ;
+  assign \normalize_vals_in_mns$29  = \difference_val_out$23 ;
+  assign normalize_vals_in_mns = \difference_val_out$22 ;
+  assign \normalize_val_in$28  = \difference_val_out$21 ;
+  assign \normalize_val_in$27  = \difference_val_out$20 ;
+  assign \normalize_val_in$26  = \difference_val_out$19 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign \difference_predic_in$18  = \predictor_predic_out$12 ;
+  assign \difference_predic_in$17  = \predictor_predic_out$11 ;
+  assign \difference_predic_in$16  = \predictor_predic_out$10 ;
+  assign difference_predic_in = predictor_predic_out;
+  assign \difference_pixel_in$15  = \predictor_pixel_out$9 ;
+  assign \difference_pixel_in$14  = \predictor_pixel_out$8 ;
+  assign \difference_pixel_in$13  = \predictor_pixel_out$7 ;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign \predictor_pixel_in$6  = \pixel_in$3 ;
+  assign \predictor_pixel_in$5  = \pixel_in$2 ;
+  assign \predictor_pixel_in$4  = \pixel_in$1 ;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = register_file_allowed_cycles;
+  assign signals_width = register_file_width;
+  assign signals_height = register_file_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_output, rst, full_clk, full_rst, nready, enc_out, enc_out_ctr, valid_out, out_end, clk, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_2" *)
+module integration_2(\pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, rst, clk, full_clk, full_rst, pixel_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$164  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$11 ;
+  (* src = "integration_2.py:62" *)
   wire \$13 ;
+  (* src = "integration_2.py:62" *)
   wire \$15 ;
+  (* src = "integration_2.py:61" *)
   wire \$17 ;
+  (* src = "integration_2.py:61" *)
   wire \$19 ;
+  (* src = "integration_2.py:61" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:62" *)
   wire \$27 ;
+  (* src = "integration_2.py:62" *)
   wire \$29 ;
+  (* src = "integration_2.py:62" *)
   wire \$31 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$33 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$34 ;
+  (* src = "integration_2.py:70" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:75" *)
   wire \$42 ;
+  (* src = "integration_2.py:75" *)
   wire \$44 ;
+  (* src = "integration_2.py:75" *)
   wire \$46 ;
+  (* src = "integration_2.py:80" *)
   wire \$48 ;
+  (* src = "integration_2.py:80" *)
   wire \$50 ;
+  (* src = "integration_2.py:80" *)
   wire \$52 ;
+  (* src = "converter_fifo.py:65" *)
   wire [111:0] \$54 ;
+  (* src = "converter_fifo.py:66" *)
   wire [6:0] \$56 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [111:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [6:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [47:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [5:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$4 ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$5 ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in$6 ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [111:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [6:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -5416,36 +6138,41 @@ module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_o
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [111:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [6:0] enc_out_ctr;
+  wire [6:0] enc_out_ctr;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [111:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [111:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [6:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$4 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$5 ;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] \integration_1_pixel_in$6 ;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -5466,73 +6193,86 @@ module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_o
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_2.py:22" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_2.py:23" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$11  = \$7  & (* src = "integration_2.py:61" *) \$9 ;
-  assign \$13  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$15  = \$11  & (* src = "integration_2.py:61" *) \$13 ;
-  assign \$17  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$19  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$21  = \$17  | (* src = "integration_2.py:60" *) \$19 ;
-  assign \$23  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$25  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$27  = \$23  & (* src = "integration_2.py:61" *) \$25 ;
-  assign \$29  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$31  = \$27  & (* src = "integration_2.py:61" *) \$29 ;
-  assign \$34  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$36  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$38  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$40  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$42  = \$38  | (* src = "integration_2.py:74" *) \$40 ;
-  assign \$44  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$46  = \$42  | (* src = "integration_2.py:74" *) \$44 ;
-  assign \$48  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$50  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$52  = \$48  & (* src = "integration_2.py:79" *) \$50 ;
+  wire valid_out;
+  assign \$9  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
+  assign \$13  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$15  = \$11  & (* src = "integration_2.py:62" *) \$13 ;
+  assign \$17  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$19  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$21  = \$17  | (* src = "integration_2.py:61" *) \$19 ;
+  assign \$23  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$25  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
+  assign \$29  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$31  = \$27  & (* src = "integration_2.py:62" *) \$29 ;
+  assign \$34  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$36  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$38  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$40  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
+  assign \$44  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$46  = \$42  | (* src = "integration_2.py:75" *) \$44 ;
+  assign \$48  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$50  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$52  = \$48  & (* src = "integration_2.py:80" *) \$50 ;
   assign \$54  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$56  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$7  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$7  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -5592,1014 +6332,680 @@ module integration_2(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , latch_o
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$15 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_end$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$52 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 112'h0000000000000000000000000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 7'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 112'h0000000000000000000000000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 7'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$31 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 48'h000000000000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 6'h00;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = \$54 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = \$56 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$33 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_reset_counter$next  = \$34 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$164 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$36 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$46 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$4  = 12'h000;
-    \$next\integration_1_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$5  = 12'h000;
-    \$next\integration_1_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in$6  = 12'h000;
-    \$next\integration_1_pixel_in$6  = \pixel_in$3 ;
-  end
   assign \$33  = \$34 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign \integration_1_pixel_in$6  = \$next\integration_1_pixel_in$6 ;
-  assign \integration_1_pixel_in$5  = \$next\integration_1_pixel_in$5 ;
-  assign \integration_1_pixel_in$4  = \$next\integration_1_pixel_in$4 ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$56 ;
+  assign enc_out = \$54 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$52 ;
+  assign \integration_1_pixel_in$6  = \pixel_in$3 ;
+  assign \integration_1_pixel_in$5  = \pixel_in$2 ;
+  assign \integration_1_pixel_in$4  = \pixel_in$1 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$46 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, rst, clk, close_full);
+  reg \$auto$verilog_backend.cc:2184:dump_module$165  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [119:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [111:0] enc_in;
+  wire [111:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [6:0] enc_in_ctr;
+  wire [6:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [111:0] enc_out;
+  wire [111:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [6:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [119:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [119:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [6:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [7:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [119:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [119:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 7'h76;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 120'h000000000000000000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = fifo_dout[111:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = fifo_dout[118:112];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[119];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$165 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[119];
+  assign enc_out_ctr = fifo_r_data[118:112];
+  assign enc_out = fifo_r_data[111:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge" *)
 (* generator = "nMigen" *)
-module merge(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , \enc_in$3 , \enc_in_ctr$4 , \enc_in$5 , \enc_in_ctr$6 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
-  (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1 ;
-  (* src = "merge.py:43" *)
-  reg [27:0] \$next\enc_in1$17 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.merge" *)
+module merge(clk, enc_in, \enc_in$1 , \enc_in$2 , \enc_in$3 , enc_in_ctr, \enc_in_ctr$4 , \enc_in_ctr$5 , \enc_in_ctr$6 , valid_in, end_in, enc_out, enc_out_ctr, valid_out, end_out, rst);
   (* src = "merge.py:43" *)
-  reg [55:0] \$next\enc_in1$26 ;
-  (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2 ;
+  wire [27:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [27:0] \$next\enc_in2$18 ;
-  (* src = "merge.py:46" *)
-  reg [55:0] \$next\enc_in2$27 ;
-  (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [27:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1$15 ;
-  (* src = "merge.py:44" *)
-  reg [5:0] \$next\enc_in_ctr1$24 ;
-  (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2$16 ;
-  (* src = "merge.py:47" *)
-  reg [5:0] \$next\enc_in_ctr2$25 ;
-  (* src = "merge.py:112" *)
-  reg [111:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [6:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:57" *)
-  reg \$next\end_in$19 ;
-  (* src = "merge.py:57" *)
-  reg \$next\end_in$28 ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [55:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$8 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:53" *)
-  reg \$next\valid_in$14 ;
-  (* src = "merge.py:53" *)
-  reg \$next\valid_in$23 ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$7 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  input clk;
-  (* src = "merge.py:109" *)
-  input [27:0] enc_in;
-  (* src = "merge.py:109" *)
-  input [27:0] \enc_in$1 ;
-  (* src = "merge.py:109" *)
-  input [27:0] \enc_in$3 ;
-  (* src = "merge.py:109" *)
-  input [27:0] \enc_in$5 ;
-  (* src = "merge.py:43" *)
-  wire [27:0] enc_in1;
-  (* src = "merge.py:43" *)
-  wire [27:0] \enc_in1$17 ;
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
   (* src = "merge.py:43" *)
-  wire [55:0] \enc_in1$26 ;
+  wire [27:0] \U$$1_enc_in1 ;
   (* src = "merge.py:46" *)
-  wire [27:0] enc_in2;
-  (* src = "merge.py:46" *)
-  wire [27:0] \enc_in2$18 ;
-  (* src = "merge.py:46" *)
-  wire [55:0] \enc_in2$27 ;
-  (* src = "merge.py:110" *)
-  input [4:0] enc_in_ctr;
-  (* src = "merge.py:110" *)
-  input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:110" *)
-  input [4:0] \enc_in_ctr$4 ;
-  (* src = "merge.py:110" *)
-  input [4:0] \enc_in_ctr$6 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
+  wire [27:0] \U$$1_enc_in2 ;
   (* src = "merge.py:44" *)
-  wire [4:0] \enc_in_ctr1$15 ;
-  (* src = "merge.py:44" *)
-  wire [5:0] \enc_in_ctr1$24 ;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
-  (* src = "merge.py:47" *)
-  wire [4:0] \enc_in_ctr2$16 ;
+  wire [4:0] \U$$1_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  wire [5:0] \enc_in_ctr2$25 ;
-  (* src = "merge.py:112" *)
-  output [111:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$10 ;
-  (* src = "merge.py:49" *)
-  wire [55:0] \enc_out$21 ;
+  wire [4:0] \U$$1_enc_in_ctr2 ;
   (* src = "merge.py:49" *)
-  wire [111:0] \enc_out$30 ;
-  (* src = "merge.py:113" *)
-  output [6:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$20 ;
-  (* src = "merge.py:50" *)
-  wire [6:0] \enc_out_ctr$29 ;
+  wire [55:0] \U$$1_enc_out ;
   (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$9 ;
-  (* src = "merge.py:120" *)
-  input end_in;
+  wire [5:0] \U$$1_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  wire \end_in$19 ;
-  (* src = "merge.py:57" *)
-  wire \end_in$28 ;
+  wire \U$$1_end_in ;
+  (* src = "merge.py:53" *)
+  wire \U$$1_valid_in ;
+  (* src = "merge.py:43" *)
+  wire [55:0] \U$$2_enc_in1 ;
+  (* src = "merge.py:46" *)
+  wire [55:0] \U$$2_enc_in2 ;
+  (* src = "merge.py:44" *)
+  wire [5:0] \U$$2_enc_in_ctr1 ;
+  (* src = "merge.py:47" *)
+  wire [5:0] \U$$2_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [111:0] \U$$2_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [6:0] \U$$2_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  wire \end_in$8 ;
-  (* src = "merge.py:121" *)
-  output end_out;
+  wire \U$$2_end_in ;
   (* src = "merge.py:58" *)
-  wire \end_out$12 ;
-  (* src = "merge.py:58" *)
-  wire \end_out$32 ;
-  (* src = "clk_domains.py:5" *)
-  input rst;
-  (* src = "merge.py:116" *)
-  input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$14 ;
+  wire \U$$2_end_out ;
   (* src = "merge.py:53" *)
-  wire \valid_in$23 ;
-  (* src = "merge.py:53" *)
-  wire \valid_in$7 ;
-  (* src = "merge.py:117" *)
-  output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$11 ;
+  wire \U$$2_valid_in ;
   (* src = "merge.py:54" *)
-  wire \valid_out$31 ;
-  \anonymous$8  \$13  (
-    .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$10 ),
-    .enc_out_ctr(\enc_out_ctr$9 ),
-    .end_in(\end_in$8 ),
-    .end_out(\end_out$12 ),
-    .rst(rst),
-    .valid_in(\valid_in$7 ),
-    .valid_out(\valid_out$11 )
-  );
-  \anonymous$9  \$22  (
-    .clk(clk),
-    .enc_in1(\enc_in1$17 ),
-    .enc_in2(\enc_in2$18 ),
-    .enc_in_ctr1(\enc_in_ctr1$15 ),
-    .enc_in_ctr2(\enc_in_ctr2$16 ),
-    .enc_out(\enc_out$21 ),
-    .enc_out_ctr(\enc_out_ctr$20 ),
-    .end_in(\end_in$19 ),
-    .rst(rst),
-    .valid_in(\valid_in$14 )
-  );
-  \anonymous$10  \$33  (
-    .clk(clk),
-    .enc_in1(\enc_in1$26 ),
-    .enc_in2(\enc_in2$27 ),
-    .enc_in_ctr1(\enc_in_ctr1$24 ),
-    .enc_in_ctr2(\enc_in_ctr2$25 ),
-    .enc_out(\enc_out$30 ),
-    .enc_out_ctr(\enc_out_ctr$29 ),
-    .end_in(\end_in$28 ),
-    .end_out(\end_out$32 ),
-    .rst(rst),
-    .valid_in(\valid_in$23 ),
-    .valid_out(\valid_out$31 )
-  );
-  always @* begin
-    \$next\enc_in1  = 28'h0000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\enc_in2$18  = 28'h0000000;
-    \$next\enc_in2$18  = \enc_in$5 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2$16  = 5'h00;
-    \$next\enc_in_ctr2$16  = \enc_in_ctr$6 ;
-  end
-  always @* begin
-    \$next\enc_in1$26  = 56'h00000000000000;
-    \$next\enc_in1$26  = \enc_out$10 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr1$24  = 6'h00;
-    \$next\enc_in_ctr1$24  = \enc_out_ctr$9 ;
-  end
-  always @* begin
-    \$next\enc_in2$27  = 56'h00000000000000;
-    \$next\enc_in2$27  = \enc_out$21 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2$25  = 6'h00;
-    \$next\enc_in_ctr2$25  = \enc_out_ctr$20 ;
-  end
-  always @* begin
-    \$next\valid_in$23  = 1'h0;
-    \$next\valid_in$23  = \valid_out$11 ;
-  end
-  always @* begin
-    \$next\end_in$28  = 1'h0;
-    \$next\end_in$28  = \end_out$12 ;
-  end
-  always @* begin
-    \$next\enc_out  = 112'h0000000000000000000000000000;
-    \$next\enc_out  = \enc_out$30 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 7'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$29 ;
-  end
-  always @* begin
-    \$next\valid_in$7  = 1'h0;
-    \$next\valid_in$7  = valid_in;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$31 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$32 ;
-  end
-  always @* begin
-    \$next\end_in$8  = 1'h0;
-    \$next\end_in$8  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 28'h0000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_in1$17  = 28'h0000000;
-    \$next\enc_in1$17  = \enc_in$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr1$15  = 5'h00;
-    \$next\enc_in_ctr1$15  = \enc_in_ctr$4 ;
-  end
-  always @* begin
-    \$next\valid_in$14  = 1'h0;
-    \$next\valid_in$14  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$19  = 1'h0;
-    \$next\end_in$19  = end_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign \end_in$28  = \$next\end_in$28 ;
-  assign \valid_in$23  = \$next\valid_in$23 ;
-  assign \enc_in_ctr2$25  = \$next\enc_in_ctr2$25 ;
-  assign \enc_in2$27  = \$next\enc_in2$27 ;
-  assign \enc_in_ctr1$24  = \$next\enc_in_ctr1$24 ;
-  assign \enc_in1$26  = \$next\enc_in1$26 ;
-  assign \enc_in_ctr2$16  = \$next\enc_in_ctr2$16 ;
-  assign \enc_in2$18  = \$next\enc_in2$18 ;
-  assign \end_in$19  = \$next\end_in$19 ;
-  assign \valid_in$14  = \$next\valid_in$14 ;
-  assign \enc_in_ctr1$15  = \$next\enc_in_ctr1$15 ;
-  assign \enc_in1$17  = \$next\enc_in1$17 ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$8  = \$next\end_in$8 ;
-  assign \valid_in$7  = \$next\valid_in$7 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  wire \U$$2_valid_out ;
+  (* src = "clk_domains.py:5" *)
+  input clk;
+  wire clk;
+  (* src = "merge.py:109" *)
+  input [27:0] enc_in;
+  wire [27:0] enc_in;
+  (* src = "merge.py:109" *)
+  input [27:0] \enc_in$1 ;
+  wire [27:0] \enc_in$1 ;
+  (* src = "merge.py:109" *)
+  input [27:0] \enc_in$2 ;
+  wire [27:0] \enc_in$2 ;
+  (* src = "merge.py:109" *)
+  input [27:0] \enc_in$3 ;
+  wire [27:0] \enc_in$3 ;
+  (* src = "merge.py:110" *)
+  input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
+  (* src = "merge.py:110" *)
+  input [4:0] \enc_in_ctr$4 ;
+  wire [4:0] \enc_in_ctr$4 ;
+  (* src = "merge.py:110" *)
+  input [4:0] \enc_in_ctr$5 ;
+  wire [4:0] \enc_in_ctr$5 ;
+  (* src = "merge.py:110" *)
+  input [4:0] \enc_in_ctr$6 ;
+  wire [4:0] \enc_in_ctr$6 ;
+  (* src = "merge.py:112" *)
+  output [111:0] enc_out;
+  wire [111:0] enc_out;
+  (* src = "merge.py:113" *)
+  output [6:0] enc_out_ctr;
+  wire [6:0] enc_out_ctr;
+  (* src = "merge.py:120" *)
+  input end_in;
+  wire end_in;
+  (* src = "merge.py:121" *)
+  output end_out;
+  wire end_out;
+  (* src = "clk_domains.py:5" *)
+  input rst;
+  wire rst;
+  (* src = "merge.py:116" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "merge.py:117" *)
+  output valid_out;
+  wire valid_out;
+  \U$$0$5  \U$$0  (
+    .clk(clk),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rst(rst),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  \U$$1$6  \U$$1  (
+    .clk(clk),
+    .enc_in1(\U$$1_enc_in1 ),
+    .enc_in2(\U$$1_enc_in2 ),
+    .enc_in_ctr1(\U$$1_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$1_enc_in_ctr2 ),
+    .enc_out(\U$$1_enc_out ),
+    .enc_out_ctr(\U$$1_enc_out_ctr ),
+    .end_in(\U$$1_end_in ),
+    .rst(rst),
+    .valid_in(\U$$1_valid_in )
+  );
+  \U$$2$7  \U$$2  (
+    .clk(clk),
+    .enc_in1(\U$$2_enc_in1 ),
+    .enc_in2(\U$$2_enc_in2 ),
+    .enc_in_ctr1(\U$$2_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$2_enc_in_ctr2 ),
+    .enc_out(\U$$2_enc_out ),
+    .enc_out_ctr(\U$$2_enc_out_ctr ),
+    .end_in(\U$$2_end_in ),
+    .end_out(\U$$2_end_out ),
+    .rst(rst),
+    .valid_in(\U$$2_valid_in ),
+    .valid_out(\U$$2_valid_out )
+  );
+  assign end_out = \U$$2_end_out ;
+  assign valid_out = \U$$2_valid_out ;
+  assign enc_out_ctr = \U$$2_enc_out_ctr ;
+  assign enc_out = \U$$2_enc_out ;
+  assign \U$$2_end_in  = \U$$0_end_out ;
+  assign \U$$2_valid_in  = \U$$0_valid_out ;
+  assign \U$$2_enc_in_ctr2  = \U$$1_enc_out_ctr ;
+  assign \U$$2_enc_in2  = \U$$1_enc_out ;
+  assign \U$$2_enc_in_ctr1  = \U$$0_enc_out_ctr ;
+  assign \U$$2_enc_in1  = \U$$0_enc_out ;
+  assign \U$$1_enc_in_ctr2  = \enc_in_ctr$6 ;
+  assign \U$$1_enc_in2  = \enc_in$3 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid_in  = valid_in;
+  assign \U$$1_enc_in_ctr1  = \enc_in_ctr$5 ;
+  assign \U$$1_enc_in1  = \enc_in$2 ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$4 ;
+  assign \U$$0_enc_in2  = \enc_in$1 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, \val_in$1 , \vals_in_mns$2 , \val_in$3 , \vals_in_mns$4 , \val_in$5 , \vals_in_mns$6 , rst, clk, ssss, val_out, \ssss$7 , \val_out$8 , \ssss$9 , \val_out$10 , \ssss$11 , \val_out$12 , valid_out, end_out, val_in);
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$14 ;
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$22 ;
-  (* src = "normalize.py:132" *)
-  reg \$next\end_in$29 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.normalize" *)
+module normalize(clk, val_in, \val_in$1 , \val_in$2 , \val_in$3 , vals_in_mns, \vals_in_mns$4 , \vals_in_mns$5 , \vals_in_mns$6 , valid_in, end_in, val_out, \val_out$7 , \val_out$8 , \val_out$9 , ssss, \ssss$10 , \ssss$11 , \ssss$12 , valid_out, end_out
+, rst);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$36 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$11 ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$7 ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss$9 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$13 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$20 ;
-  (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$27 ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$34 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$21 ;
-  (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$28 ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns$35 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$10 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$12 ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out$8 ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "normalize.py:132" *)
+  wire \U$$1_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$1_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$1_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$1_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$1_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$19 ;
+  wire \U$$1_valid ;
+  (* src = "normalize.py:132" *)
+  wire \U$$2_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$2_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$2_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$2_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$2_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$26 ;
+  wire \U$$2_valid ;
+  (* src = "normalize.py:132" *)
+  wire \U$$3_end_in ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$3_ssss ;
+  (* src = "normalize.py:119" *)
+  wire [12:0] \U$$3_val_in ;
+  (* src = "normalize.py:121" *)
+  wire [12:0] \U$$3_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$3_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid$33 ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$3_valid ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$14 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$22 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$29 ;
-  (* src = "normalize.py:132" *)
-  wire \end_in$36 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$17 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
+  wire [4:0] ssss;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$11 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$16 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$24 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$31 ;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$38 ;
+  output [4:0] \ssss$10 ;
+  wire [4:0] \ssss$10 ;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$7 ;
+  output [4:0] \ssss$11 ;
+  wire [4:0] \ssss$11 ;
   (* src = "normalize.py:201" *)
-  output [4:0] \ssss$9 ;
+  output [4:0] \ssss$12 ;
+  wire [4:0] \ssss$12 ;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:194" *)
   input [12:0] \val_in$1 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$13 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$20 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$27 ;
+  wire [12:0] \val_in$1 ;
   (* src = "normalize.py:194" *)
-  input [12:0] \val_in$3 ;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$34 ;
+  input [12:0] \val_in$2 ;
+  wire [12:0] \val_in$2 ;
   (* src = "normalize.py:194" *)
-  input [12:0] \val_in$5 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$21 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$28 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] \val_in_mns$35 ;
+  input [12:0] \val_in$3 ;
+  wire [12:0] \val_in$3 ;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
+  wire [11:0] val_out;
   (* src = "normalize.py:199" *)
-  output [11:0] \val_out$10 ;
-  (* src = "normalize.py:199" *)
-  output [11:0] \val_out$12 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$15 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$23 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$30 ;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$37 ;
+  output [11:0] \val_out$7 ;
+  wire [11:0] \val_out$7 ;
   (* src = "normalize.py:199" *)
   output [11:0] \val_out$8 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
-  (* src = "normalize.py:128" *)
-  wire \valid$19 ;
-  (* src = "normalize.py:128" *)
-  wire \valid$26 ;
-  (* src = "normalize.py:128" *)
-  wire \valid$33 ;
+  wire [11:0] \val_out$8 ;
+  (* src = "normalize.py:199" *)
+  output [11:0] \val_out$9 ;
+  wire [11:0] \val_out$9 ;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
-  (* src = "normalize.py:196" *)
-  input [12:0] \vals_in_mns$2 ;
+  wire [12:0] vals_in_mns;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$4 ;
+  wire [12:0] \vals_in_mns$4 ;
+  (* src = "normalize.py:196" *)
+  input [12:0] \vals_in_mns$5 ;
+  wire [12:0] \vals_in_mns$5 ;
   (* src = "normalize.py:196" *)
   input [12:0] \vals_in_mns$6 ;
-  anonymous \$18  (
+  wire [12:0] \vals_in_mns$6 ;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$14 ),
-    .end_out(\end_out$17 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$16 ),
-    .val_in(\val_in$13 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$15 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  \anonymous$1  \$25  (
+  \U$$1  \U$$1  (
     .clk(clk),
-    .end_in(\end_in$22 ),
+    .end_in(\U$$1_end_in ),
     .rst(rst),
-    .ssss(\ssss$24 ),
-    .val_in(\val_in$20 ),
-    .val_in_mns(\val_in_mns$21 ),
-    .val_out(\val_out$23 ),
-    .valid(\valid$19 )
+    .ssss(\U$$1_ssss ),
+    .val_in(\U$$1_val_in ),
+    .val_in_mns(\U$$1_val_in_mns ),
+    .val_out(\U$$1_val_out ),
+    .valid(\U$$1_valid )
   );
-  \anonymous$2  \$32  (
+  \U$$2  \U$$2  (
     .clk(clk),
-    .end_in(\end_in$29 ),
+    .end_in(\U$$2_end_in ),
     .rst(rst),
-    .ssss(\ssss$31 ),
-    .val_in(\val_in$27 ),
-    .val_in_mns(\val_in_mns$28 ),
-    .val_out(\val_out$30 ),
-    .valid(\valid$26 )
+    .ssss(\U$$2_ssss ),
+    .val_in(\U$$2_val_in ),
+    .val_in_mns(\U$$2_val_in_mns ),
+    .val_out(\U$$2_val_out ),
+    .valid(\U$$2_valid )
   );
-  \anonymous$3  \$39  (
+  \U$$3  \U$$3  (
     .clk(clk),
-    .end_in(\end_in$36 ),
+    .end_in(\U$$3_end_in ),
     .rst(rst),
-    .ssss(\ssss$38 ),
-    .val_in(\val_in$34 ),
-    .val_in_mns(\val_in_mns$35 ),
-    .val_out(\val_out$37 ),
-    .valid(\valid$33 )
+    .ssss(\U$$3_ssss ),
+    .val_in(\U$$3_val_in ),
+    .val_in_mns(\U$$3_val_in_mns ),
+    .val_out(\U$$3_val_out ),
+    .valid(\U$$3_valid )
   );
-  always @* begin
-    \$next\val_in$13  = 13'h0000;
-    \$next\val_in$13  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$7  = 5'h00;
-    \$next\ssss$7  = \ssss$24 ;
-  end
-  always @* begin
-    \$next\val_out$8  = 12'h000;
-    \$next\val_out$8  = \val_out$23 ;
-  end
-  always @* begin
-    \$next\val_in$27  = 13'h0000;
-    \$next\val_in$27  = \val_in$3 ;
-  end
-  always @* begin
-    \$next\valid$26  = 1'h0;
-    \$next\valid$26  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$29  = 1'h0;
-    \$next\end_in$29  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$28  = 13'h0000;
-    \$next\val_in_mns$28  = \vals_in_mns$4 ;
-  end
-  always @* begin
-    \$next\ssss$9  = 5'h00;
-    \$next\ssss$9  = \ssss$31 ;
-  end
-  always @* begin
-    \$next\val_out$10  = 12'h000;
-    \$next\val_out$10  = \val_out$30 ;
-  end
-  always @* begin
-    \$next\val_in$34  = 13'h0000;
-    \$next\val_in$34  = \val_in$5 ;
-  end
-  always @* begin
-    \$next\valid$33  = 1'h0;
-    \$next\valid$33  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$14  = 1'h0;
-    \$next\end_in$14  = end_in;
-  end
-  always @* begin
-    \$next\end_in$36  = 1'h0;
-    \$next\end_in$36  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$35  = 13'h0000;
-    \$next\val_in_mns$35  = \vals_in_mns$6 ;
-  end
-  always @* begin
-    \$next\ssss$11  = 5'h00;
-    \$next\ssss$11  = \ssss$38 ;
-  end
-  always @* begin
-    \$next\val_out$12  = 12'h000;
-    \$next\val_out$12  = \val_out$37 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$17 ;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$16 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$15 ;
-  end
-  always @* begin
-    \$next\val_in$20  = 13'h0000;
-    \$next\val_in$20  = \val_in$1 ;
-  end
-  always @* begin
-    \$next\valid$19  = 1'h0;
-    \$next\valid$19  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$22  = 1'h0;
-    \$next\end_in$22  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns$21  = 13'h0000;
-    \$next\val_in_mns$21  = \vals_in_mns$2 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign \val_out$12  = \$next\val_out$12 ;
-  assign \ssss$11  = \$next\ssss$11 ;
-  assign \val_in_mns$35  = \$next\val_in_mns$35 ;
-  assign \end_in$36  = \$next\end_in$36 ;
-  assign \valid$33  = \$next\valid$33 ;
-  assign \val_in$34  = \$next\val_in$34 ;
-  assign \val_out$10  = \$next\val_out$10 ;
-  assign \ssss$9  = \$next\ssss$9 ;
-  assign \val_in_mns$28  = \$next\val_in_mns$28 ;
-  assign \end_in$29  = \$next\end_in$29 ;
-  assign \valid$26  = \$next\valid$26 ;
-  assign \val_in$27  = \$next\val_in$27 ;
-  assign \val_out$8  = \$next\val_out$8 ;
-  assign \ssss$7  = \$next\ssss$7 ;
-  assign \val_in_mns$21  = \$next\val_in_mns$21 ;
-  assign \end_in$22  = \$next\end_in$22 ;
-  assign \valid$19  = \$next\valid$19 ;
-  assign \val_in$20  = \$next\val_in$20 ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$14  = \$next\end_in$14 ;
-  assign valid = \$next\valid ;
-  assign \val_in$13  = \$next\val_in$13 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign \val_out$9  = \U$$3_val_out ;
+  assign \ssss$12  = \U$$3_ssss ;
+  assign \U$$3_val_in_mns  = \vals_in_mns$6 ;
+  assign \U$$3_end_in  = end_in;
+  assign \U$$3_valid  = valid_in;
+  assign \U$$3_val_in  = \val_in$3 ;
+  assign \val_out$8  = \U$$2_val_out ;
+  assign \ssss$11  = \U$$2_ssss ;
+  assign \U$$2_val_in_mns  = \vals_in_mns$5 ;
+  assign \U$$2_end_in  = end_in;
+  assign \U$$2_valid  = valid_in;
+  assign \U$$2_val_in  = \val_in$2 ;
+  assign \val_out$7  = \U$$1_val_out ;
+  assign \ssss$10  = \U$$1_ssss ;
+  assign \U$$1_val_in_mns  = \vals_in_mns$4 ;
+  assign \U$$1_end_in  = end_in;
+  assign \U$$1_valid  = valid_in;
+  assign \U$$1_val_in  = \val_in$1 ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.top_module.vbits_to_cbits.output_handler" *)
+module output_handler(clk, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$166  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [8:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [8:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [8:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [8:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [4:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [6:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [7:0] buff_consum;
+  wire [7:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [143:0] buffer;
+  wire [143:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [31:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [4:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [6:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -6638,148 +7044,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @* begin
-    \$next\shift_right  = 7'h00;
-    \$next\shift_right  = \$1 [6:0];
-  end
-  always @* begin
-    \$next\shift_left  = 5'h00;
-    \$next\shift_left  = \$4 [4:0];
-  end
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [31:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [31:0];
+                      \data_out$next  = \$40 [31:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [31:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [31:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [31:0];
+                      \data_out$next  = \$52 [31:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [31:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$166 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -6788,543 +7247,621 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [4:0];
+  assign shift_right = \$2 [6:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , new_row, end_in, rst, clk, pixel_out, \pixel_out$4 , \pixel_out$5 , \pixel_out$6 , predic_out, \predic_out$7 , \predic_out$8 , \predic_out$9 , valid_out, end_out, valid_in);
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$11 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$13 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [11:0] \$next\buff$15 ;
-  (* src = "predictor_p1_c4_px4.py:80" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$10 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$12 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [11:0] \$next\lbuff$14 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$4 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$5 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [11:0] \$next\pixel_out$6 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$7 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$8 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [11:0] \$next\predic_out$9 ;
-  (* src = "predictor_p1_c4_px4.py:76" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.predictor" *)
+module predictor(clk, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , new_row, end_in, valid_in, pixel_out, \pixel_out$4 , \pixel_out$5 , \pixel_out$6 , predic_out, \predic_out$7 , \predic_out$8 , \predic_out$9 , valid_out, end_out, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$167  = 0;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$11  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$11$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$13  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$13$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [11:0] \buff$15  = 12'h800;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$15$next ;
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [11:0] \buff$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "predictor_p1_c4_px4.py:79" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_px4.py:80" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:80" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$10  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$10$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$12  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$12$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [11:0] \lbuff$14  = 12'h800;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$14$next ;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_px4.py:66" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$1 ;
+  wire [11:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$2 ;
+  wire [11:0] \pixel_in$2 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [11:0] \pixel_in$3 ;
-  (* init = 12'h000 *)
+  wire [11:0] \pixel_in$3 ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$4 ;
   reg [11:0] \pixel_out$4  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$4$next ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$5 ;
   reg [11:0] \pixel_out$5  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$5$next ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [11:0] \pixel_out$6 ;
   reg [11:0] \pixel_out$6  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$6$next ;
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
-  (* init = 12'h000 *)
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$7 ;
   reg [11:0] \predic_out$7  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$7$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$8 ;
   reg [11:0] \predic_out$8  = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$8$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [11:0] \predic_out$9 ;
   reg [11:0] \predic_out$9  = 12'h000;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$9$next ;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_px4.py:75" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_px4.py:76" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_px4.py:76" *)
+  reg \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \buff$15  <= \$next\buff$15 ;
+    \buff$15  <= \buff$15$next ;
   always @(posedge clk)
-      \buff$13  <= \$next\buff$13 ;
+    \buff$13  <= \buff$13$next ;
   always @(posedge clk)
-      \buff$11  <= \$next\buff$11 ;
+    \buff$11  <= \buff$11$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      \lbuff$14  <= \$next\lbuff$14 ;
+    \lbuff$14  <= \lbuff$14$next ;
   always @(posedge clk)
-      \lbuff$12  <= \$next\lbuff$12 ;
+    \lbuff$12  <= \lbuff$12$next ;
   always @(posedge clk)
-      \lbuff$10  <= \$next\lbuff$10 ;
+    \lbuff$10  <= \lbuff$10$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      \predic_out$9  <= \$next\predic_out$9 ;
+    \predic_out$9  <= \predic_out$9$next ;
   always @(posedge clk)
-      \predic_out$8  <= \$next\predic_out$8 ;
+    \predic_out$8  <= \predic_out$8$next ;
   always @(posedge clk)
-      \predic_out$7  <= \$next\predic_out$7 ;
+    \predic_out$7  <= \predic_out$7$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \pixel_out$6  <= \$next\pixel_out$6 ;
+    \pixel_out$6  <= \pixel_out$6$next ;
   always @(posedge clk)
-      \pixel_out$5  <= \$next\pixel_out$5 ;
+    \pixel_out$5  <= \pixel_out$5$next ;
   always @(posedge clk)
-      \pixel_out$4  <= \$next\pixel_out$4 ;
+    \pixel_out$4  <= \pixel_out$4$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$4  = \pixel_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$4$next  = \pixel_out$4 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$4  = \pixel_in$1 ;
+          \pixel_out$4$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$4  = 12'h000;
+          \pixel_out$4$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\lbuff$12  = \lbuff$12 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$12$next  = \lbuff$12 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$12  = \pixel_in$2 ;
+                \lbuff$12$next  = \pixel_in$2 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$12  = 12'h800;
+          \lbuff$12$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$14  = \lbuff$14 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$14$next  = \lbuff$14 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$14  = \pixel_in$3 ;
+                \lbuff$14$next  = \pixel_in$3 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$14  = 12'h800;
+          \lbuff$14$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff  = pixel_in;
+          \buff$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$11  = \buff$11 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$11$next  = \buff$11 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$11  = \pixel_in$1 ;
+          \buff$11$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$11  = 12'h800;
+          \buff$11$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$13  = \buff$13 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$13$next  = \buff$13 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$13  = \pixel_in$2 ;
+          \buff$13$next  = \pixel_in$2 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$13  = 12'h800;
+          \buff$13$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$15  = \buff$15 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \buff$15$next  = \buff$15 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$15  = \pixel_in$3 ;
+          \buff$15$next  = \pixel_in$3 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$15  = 12'h800;
+          \buff$15$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\pixel_out$5  = \pixel_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$5$next  = \pixel_out$5 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$5  = \pixel_in$2 ;
+          \pixel_out$5$next  = \pixel_in$2 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$5  = 12'h000;
+          \pixel_out$5$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$6  = \pixel_out$6 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \pixel_out$6$next  = \pixel_out$6 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$6  = \pixel_in$3 ;
+          \pixel_out$6$next  = \pixel_in$3 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$6  = 12'h000;
+          \pixel_out$6$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out  = lbuff;
-            1'hz:
-                \$next\predic_out  = buff;
+                \predic_out$next  = lbuff;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$next  = buff;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$7  = \predic_out$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$7$next  = \predic_out$7 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$7  = \lbuff$10 ;
-            1'hz:
-                \$next\predic_out$7  = \buff$11 ;
+                \predic_out$7$next  = \lbuff$10 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$7$next  = \buff$11 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$7  = 12'h000;
+          \predic_out$7$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$8  = \predic_out$8 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$8$next  = \predic_out$8 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$8  = \lbuff$12 ;
-            1'hz:
-                \$next\predic_out$8  = \buff$13 ;
+                \predic_out$8$next  = \lbuff$12 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$8$next  = \buff$13 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$8  = 12'h000;
+          \predic_out$8$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\predic_out$9  = \predic_out$9 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \predic_out$9$next  = \predic_out$9 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$9  = \lbuff$14 ;
-            1'hz:
-                \$next\predic_out$9  = \buff$15 ;
+                \predic_out$9$next  = \lbuff$14 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$9$next  = \buff$15 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$9  = 12'h000;
+          \predic_out$9$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff  = pixel_in;
+                \lbuff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$10  = \lbuff$10 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$167 ) begin end
+    \lbuff$10$next  = \lbuff$10 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$10  = \pixel_in$1 ;
+                \lbuff$10$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$10  = 12'h800;
+          \lbuff$10$next  = 12'h800;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.register_file" *)
 (* generator = "nMigen" *)
-module register_file(full_rst, clk, width, height, allowed_cycles, full_clk);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\clk ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.register_file" *)
+module register_file(height, width, allowed_cycles, full_clk, full_rst, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$168  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
+  (* src = "clk_domains.py:5" *)
   output clk;
+  wire clk;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
-  always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$168 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
-  assign clk = \$next\clk ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
+  assign clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.top_module.integration_2.integration_1.signals" *)
+module signals(rst, clk, height, width, new_input, new_row, end_of_frame);
+  reg \$auto$verilog_backend.cc:2184:dump_module$169  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 3'h4;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -7339,124 +7876,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 3'h4;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 3'h4;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$169 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7465,80 +8071,71 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_tdata, s_tlast, s_tvalid, rst, full_clk, full_rst, m_tvalid, m_tlast, m_tdata, s_tready, m_tready);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_tlast, m_tready, m_tdata, s_tvalid, s_tlast, s_tready, s_tdata, full_clk, full_rst, rst, m_tvalid);
+  (* src = "integration_3_axi_stream.py:57" *)
   wire \$4 ;
+  (* src = "integration_3_axi_stream.py:67" *)
   wire \$6 ;
-  (* src = "integration_3_axi_stream.py:30" *)
-  reg [31:0] \$next\m_tdata ;
-  (* src = "integration_3_axi_stream.py:28" *)
-  reg \$next\m_tlast ;
-  (* src = "integration_3_axi_stream.py:27" *)
-  reg \$next\m_tvalid ;
-  (* src = "integration_3_axi_stream.py:50" *)
-  reg \$next\s_end ;
-  (* src = "integration_3_axi_stream.py:35" *)
-  reg \$next\s_tready ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\top_module_busy_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\top_module_pixel_in ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\top_module_pixel_in$1 ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\top_module_pixel_in$2 ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\top_module_pixel_in$3 ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\top_module_valid_in ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3_axi_stream.py:30" *)
+  wire full_rst;
+  (* src = "integration_3_axi_stream.py:31" *)
   output [31:0] m_tdata;
-  (* src = "integration_3_axi_stream.py:28" *)
-  output m_tlast;
+  wire [31:0] m_tdata;
   (* src = "integration_3_axi_stream.py:29" *)
+  output m_tlast;
+  wire m_tlast;
+  (* src = "integration_3_axi_stream.py:30" *)
   input m_tready;
-  (* src = "integration_3_axi_stream.py:27" *)
+  wire m_tready;
+  (* src = "integration_3_axi_stream.py:28" *)
   output m_tvalid;
+  wire m_tvalid;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3_axi_stream.py:50" *)
+  wire rst;
+  (* src = "integration_3_axi_stream.py:51" *)
   wire s_end;
-  (* src = "integration_3_axi_stream.py:36" *)
+  (* src = "integration_3_axi_stream.py:37" *)
   input [63:0] s_tdata;
-  (* src = "integration_3_axi_stream.py:34" *)
-  input s_tlast;
+  wire [63:0] s_tdata;
   (* src = "integration_3_axi_stream.py:35" *)
+  input s_tlast;
+  wire s_tlast;
+  (* src = "integration_3_axi_stream.py:36" *)
   output s_tready;
-  (* src = "integration_3_axi_stream.py:33" *)
+  wire s_tready;
+  (* src = "integration_3_axi_stream.py:34" *)
   input s_tvalid;
-  (* src = "integration_3.py:32" *)
+  wire s_tvalid;
+  (* src = "integration_3.py:33" *)
   wire top_module_busy_in;
-  (* src = "integration_3.py:25" *)
+  (* src = "integration_3.py:26" *)
   wire [31:0] top_module_data_out;
-  (* src = "integration_3.py:30" *)
-  wire top_module_end_out;
   (* src = "integration_3.py:31" *)
+  wire top_module_end_out;
+  (* src = "integration_3.py:32" *)
   wire top_module_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] top_module_pixel_in;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \top_module_pixel_in$1 ;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \top_module_pixel_in$2 ;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] \top_module_pixel_in$3 ;
-  (* src = "integration_3.py:28" *)
-  wire top_module_valid_in;
   (* src = "integration_3.py:29" *)
+  wire top_module_valid_in;
+  (* src = "integration_3.py:30" *)
   wire top_module_valid_out;
-  assign \$4  = m_tready == (* src = "integration_3_axi_stream.py:56" *) 1'h0;
-  assign \$6  = top_module_nready == (* src = "integration_3_axi_stream.py:66" *) 1'h0;
+  assign \$4  = m_tready == (* src = "integration_3_axi_stream.py:57" *) 1'h0;
+  assign \$6  = top_module_nready == (* src = "integration_3_axi_stream.py:67" *) 1'h0;
   top_module top_module (
     .busy_in(top_module_busy_in),
     .data_out(top_module_data_out),
@@ -7554,146 +8151,85 @@ module top(s_tdata, s_tlast, s_tvalid, rst, full_clk, full_rst, m_tvalid, m_tlas
     .valid_in(top_module_valid_in),
     .valid_out(top_module_valid_out)
   );
-  always @* begin
-    \$next\m_tdata  = 32'd0;
-    \$next\m_tdata  = top_module_data_out;
-  end
-  always @* begin
-    \$next\m_tlast  = 1'h0;
-    \$next\m_tlast  = top_module_end_out;
-  end
-  always @* begin
-    \$next\top_module_valid_in  = 1'h0;
-    \$next\top_module_valid_in  = s_tvalid;
-  end
-  always @* begin
-    \$next\top_module_busy_in  = 1'h0;
-    \$next\top_module_busy_in  = \$4 ;
-  end
-  always @* begin
-    \$next\m_tvalid  = 1'h0;
-    \$next\m_tvalid  = top_module_valid_out;
-  end
-  always @* begin
-    \$next\top_module_pixel_in  = 12'h000;
-    \$next\top_module_pixel_in  = s_tdata[11:0];
-  end
-  always @* begin
-    \$next\top_module_pixel_in$1  = 12'h000;
-    \$next\top_module_pixel_in$1  = s_tdata[23:12];
-  end
-  always @* begin
-    \$next\top_module_pixel_in$2  = 12'h000;
-    \$next\top_module_pixel_in$2  = s_tdata[35:24];
-  end
-  always @* begin
-    \$next\top_module_pixel_in$3  = 12'h000;
-    \$next\top_module_pixel_in$3  = s_tdata[47:36];
-  end
-  always @* begin
-    \$next\s_tready  = 1'h0;
-    \$next\s_tready  = \$6 ;
-  end
-  always @* begin
-    \$next\s_end  = 1'h0;
-    \$next\s_end  = s_tlast;
-  end
-  assign top_module_valid_in = \$next\top_module_valid_in ;
-  assign s_end = \$next\s_end ;
-  assign s_tready = \$next\s_tready ;
-  assign \top_module_pixel_in$3  = \$next\top_module_pixel_in$3 ;
-  assign \top_module_pixel_in$2  = \$next\top_module_pixel_in$2 ;
-  assign \top_module_pixel_in$1  = \$next\top_module_pixel_in$1 ;
-  assign top_module_pixel_in = \$next\top_module_pixel_in ;
-  assign m_tvalid = \$next\m_tvalid ;
-  assign top_module_busy_in = \$next\top_module_busy_in ;
-  assign m_tlast = \$next\m_tlast ;
-  assign m_tdata = \$next\m_tdata ;
+  assign top_module_valid_in = s_tvalid;
+  assign s_end = s_tlast;
+  assign s_tready = \$6 ;
+  assign \top_module_pixel_in$3  = s_tdata[47:36];
+  assign \top_module_pixel_in$2  = s_tdata[35:24];
+  assign \top_module_pixel_in$1  = s_tdata[23:12];
+  assign top_module_pixel_in = s_tdata[11:0];
+  assign m_tvalid = top_module_valid_out;
+  assign top_module_busy_in = \$4 ;
+  assign m_tlast = top_module_end_out;
+  assign m_tdata = top_module_data_out;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module" *)
 (* generator = "nMigen" *)
-module top_module(\pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, busy_in, rst, full_clk, full_rst, data_out, valid_out, end_out, nready, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$4 ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$5 ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in$6 ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [47:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [5:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* \nmigen.hierarchy  = "top.top_module" *)
+module top_module(end_out, busy_in, valid_out, pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , nready, valid_in, rst, full_clk, full_rst, data_out);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "integration_3.py:25" *)
+  wire busy_in;
+  (* src = "integration_3.py:26" *)
   output [31:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [31:0] data_out;
+  (* src = "integration_3.py:31" *)
   output end_out;
+  wire end_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire full_rst;
+  (* src = "clk_domains.py:5" *)
   wire integration_2_clk;
-  (* src = "integration_2.py:24" *)
-  wire [111:0] integration_2_enc_out;
   (* src = "integration_2.py:25" *)
-  wire [6:0] integration_2_enc_out_ctr;
+  wire [111:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [6:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$4 ;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$5 ;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] \integration_2_pixel_in$6 ;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] pixel_in;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$1 ;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] \pixel_in$1 ;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$2 ;
-  (* src = "integration_3.py:22" *)
+  wire [11:0] \pixel_in$2 ;
+  (* src = "integration_3.py:23" *)
   input [11:0] \pixel_in$3 ;
+  wire [11:0] \pixel_in$3 ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire rst;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -7742,221 +8278,126 @@ module top_module(\pixel_in$1 , \pixel_in$2 , \pixel_in$3 , valid_in, busy_in, r
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$4  = 12'h000;
-    \$next\integration_2_pixel_in$4  = \pixel_in$1 ;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$5  = 12'h000;
-    \$next\integration_2_pixel_in$5  = \pixel_in$2 ;
-  end
-  always @* begin
-    \$next\integration_2_pixel_in$6  = 12'h000;
-    \$next\integration_2_pixel_in$6  = \pixel_in$3 ;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 48'h000000000000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[47:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 6'h00;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[5:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign \integration_2_pixel_in$6  = \$next\integration_2_pixel_in$6 ;
-  assign \integration_2_pixel_in$5  = \$next\integration_2_pixel_in$5 ;
-  assign \integration_2_pixel_in$4  = \$next\integration_2_pixel_in$4 ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[5:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[47:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign \integration_2_pixel_in$6  = \pixel_in$3 ;
+  assign \integration_2_pixel_in$5  = \pixel_in$2 ;
+  assign \integration_2_pixel_in$4  = \pixel_in$1 ;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$170  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [7:0] \$23 ;
-  wire [7:0] \$24 ;
-  wire [7:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [7:0] \$32 ;
-  wire [7:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [7:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [7:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [7:0] \$51 ;
-  wire [7:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [7:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [7:0] \$66 ;
-  wire [7:0] \$67 ;
-  wire [7:0] \$7 ;
-  wire [7:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [6:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [119:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [6:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [6:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [6:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [6:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [119:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [6:0] consume = 7'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [119:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [119:0] dout;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [6:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [6:0] level;
   reg [6:0] level = 7'h00;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [6:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [6:0] produce = 7'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [6:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [119:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [6:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [119:0] r_data;
+  wire [119:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [6:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [119:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 8'h7e : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 8'h00 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 7'h7f;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 8'h00 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [6:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [119:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [6:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [119:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [119:0] w_data;
+  wire [119:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [119:0] storage [126:0];
   initial begin
     storage[0] = 120'h000000000000000000000000000000;
@@ -8087,238 +8528,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[125] = 120'h000000000000000000000000000000;
     storage[126] = 120'h000000000000000000000000000000;
   end
-  reg [119:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+  reg [119:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
   end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 7'h7f;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [6:0];
+          \level$next  = \$35 [6:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [6:0];
+          \level$next  = \$46 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 7'h00;
+          \level$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_addr  = 7'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [6:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 120'h000000000000000000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
-      1'h1:
-          \$next\produce  = \$23 [6:0];
+          \produce$next  = \$13 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 7'h00;
+          \produce$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 7'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 120'h000000000000000000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$170 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [6:0];
+          \consume$next  = \$22 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 7'h00;
+          \consume$next  = 7'h00;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$12 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$9 (clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$171  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [8:0] \$23 ;
-  wire [8:0] \$24 ;
-  wire [8:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [8:0] \$32 ;
-  wire [8:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [8:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [8:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [8:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [8:0] \$51 ;
-  wire [8:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [8:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [8:0] \$66 ;
-  wire [8:0] \$67 ;
-  wire [8:0] \$7 ;
-  wire [8:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [7:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [54:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [7:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [7:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [7:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [54:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [8:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [8:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [7:0] consume = 8'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [54:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [54:0] dout;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [7:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [7:0] level;
   reg [7:0] level = 8'h00;
-  (* init = 8'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [7:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [7:0] produce = 8'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [7:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [54:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [7:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [54:0] r_data;
+  wire [54:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [7:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [54:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 9'h0fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 8'hfe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 9'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 8'hff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 8'hfe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 9'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [7:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [54:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [7:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [54:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [54:0] w_data;
+  wire [54:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [54:0] storage [254:0];
   initial begin
     storage[0] = 55'h00000000000000;
@@ -8577,145 +8992,133 @@ module \unbuffered$12 (we, replace, re, rst, clk, writable, readable, dout, leve
     storage[253] = 55'h00000000000000;
     storage[254] = 55'h00000000000000;
   end
-  reg [54:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+  reg [54:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
   end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 8'hfe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 9'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 8'hfe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 9'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 8'hff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [7:0];
+          \level$next  = \$35 [7:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [7:0];
+          \level$next  = \$46 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 8'h00;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 8'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [7:0];
+          \level$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 55'h00000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [7:0];
+          \produce$next  = \$13 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 8'h00;
+          \produce$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 8'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 55'h00000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$171 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [7:0];
+          \consume$next  = \$22 [7:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 8'h00;
+          \consume$next  = 8'h00;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [47:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [5:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [7:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [7:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [143:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.top_module.vbits_to_cbits" *)
+module vbits_to_cbits(enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, rst, clk, latch_input);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [31:0] data_out;
+  wire [31:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [47:0] enc_in;
+  wire [47:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [7:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -8738,6 +9141,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [7:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -8758,10 +9162,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -8788,75 +9195,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 48'h000000000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 6'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 144'h000000000000000000000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 8'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 8'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/lj92_pipeline_fifo.v b/verilog_src/lj92_pipeline_fifo.v
index 506c1f1..07b45d8 100644
--- a/verilog_src/lj92_pipeline_fifo.v
+++ b/verilog_src/lj92_pipeline_fifo.v
@@ -1,390 +1,293 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.fifo" *)
+module fifo(w_data, r_rdy, r_data, r_en, level, rst, clk, w_en);
+  reg \$auto$verilog_backend.cc:2184:dump_module$6  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [7:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [68:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [7:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [68:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [68:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [68:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [7:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire [7:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [68:0] r_data;
+  wire [68:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [68:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [68:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [6:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [68:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [68:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [68:0] w_data;
+  wire [68:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 69'h000000000000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 69'h000000000000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$6 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 8'h00;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, enc_out, enc_out_ctr, out_end, valid_out, close_full, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(enc_in_ctr, in_end, valid_in, enc_out, enc_out_ctr, out_end, valid_out, latch_output, close_full, clk, rst, enc_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$7  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [61:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [68:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [61:0] enc_in;
+  wire [61:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [61:0] enc_out;
+  wire [61:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [68:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [68:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [5:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [7:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [68:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [68:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire out_end;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 7'h76;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 69'h000000000000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 62'h0000000000000000;
-    \$next\enc_out  = fifo_dout[61:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = fifo_dout[67:62];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[68];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$7 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[68];
+  assign enc_out_ctr = fifo_r_data[67:62];
+  assign enc_out = fifo_r_data[61:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.fifo.unbuffered" *)
+module unbuffered(clk, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, rst);
+  reg \$auto$verilog_backend.cc:2184:dump_module$8  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [7:0] \$23 ;
-  wire [7:0] \$24 ;
-  wire [7:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [7:0] \$32 ;
-  wire [7:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [7:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [7:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [7:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [7:0] \$51 ;
-  wire [7:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [7:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [7:0] \$66 ;
-  wire [7:0] \$67 ;
-  wire [7:0] \$7 ;
-  wire [7:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [6:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [68:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [6:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [6:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [6:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [6:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [68:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [7:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [6:0] consume = 7'h00;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [68:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [68:0] dout;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [6:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [6:0] level;
   reg [6:0] level = 7'h00;
-  (* init = 7'h00 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [6:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [6:0] produce = 7'h00;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [6:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [68:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [6:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [68:0] r_data;
+  wire [68:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [6:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [68:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 8'h7e : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 8'h00 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 7'h7f;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 7'h7e;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 8'h00 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [6:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [68:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [6:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [68:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [68:0] w_data;
+  wire [68:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [68:0] storage [126:0];
   initial begin
     storage[0] = 69'h000000000000000000;
@@ -515,97 +418,106 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[125] = 69'h000000000000000000;
     storage[126] = 69'h000000000000000000;
   end
-  reg [68:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+  reg [68:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
   end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 7'h7e;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 8'h00 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 7'h7f;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$8 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [6:0];
+          \level$next  = \$35 [6:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [6:0];
+          \level$next  = \$46 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 7'h00;
+          \level$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_addr  = 7'h00;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
+    if (\$auto$verilog_backend.cc:2184:dump_module$8 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [6:0];
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_data  = 69'h000000000000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
-      1'h1:
-          \$next\produce  = \$23 [6:0];
+          \produce$next  = \$13 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 7'h00;
+          \produce$next  = 7'h00;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 7'h00;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 69'h000000000000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$8 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [6:0];
+          \consume$next  = \$22 [6:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 7'h00;
+          \consume$next  = 7'h00;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
diff --git a/verilog_src/markers.v b/verilog_src/markers.v
index 90e41c0..5b91aa7 100644
--- a/verilog_src/markers.v
+++ b/verilog_src/markers.v
@@ -1,314 +1,496 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, o_busy, data_out, end_out, i_busy);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, o_busy, i_busy, data_out, data_in, end_in, end_out, force_end_in, clk, rst, valid_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
   output o_busy;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  reg o_busy;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      end_cond <= \$next\end_cond ;
+    end_cond <= \end_cond$next ;
   always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
diff --git a/verilog_src/merge.v b/verilog_src/merge.v
index da0995d..50d6d0e 100644
--- a/verilog_src/merge.v
+++ b/verilog_src/merge.v
@@ -1,233 +1,203 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(enc_in_ctr1, enc_in_ctr2, enc_in1, enc_in2, end_in, rst, clk, enc_out_ctr, enc_out, valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.U$$0" *)
+module \U$$0 (enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr2, enc_out, enc_out_ctr, valid_out, end_out, rst, clk, enc_in1);
+  reg \$auto$verilog_backend.cc:2184:dump_module$5  = 0;
+  (* src = "merge.py:74" *)
   wire [5:0] \$1 ;
+  (* src = "merge.py:75" *)
   wire [61:0] \$3 ;
+  (* src = "merge.py:75" *)
   wire [61:0] \$5 ;
-  (* src = "merge.py:49" *)
-  reg [61:0] \$next\enc_out ;
-  (* src = "merge.py:50" *)
-  reg [5:0] \$next\enc_out_ctr ;
-  (* src = "merge.py:58" *)
-  reg \$next\end_out ;
-  (* src = "merge.py:54" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "merge.py:43" *)
   input [30:0] enc_in1;
+  wire [30:0] enc_in1;
   (* src = "merge.py:46" *)
   input [30:0] enc_in2;
+  wire [30:0] enc_in2;
   (* src = "merge.py:44" *)
   input [4:0] enc_in_ctr1;
+  wire [4:0] enc_in_ctr1;
   (* src = "merge.py:47" *)
   input [4:0] enc_in_ctr2;
-  (* init = 62'h0000000000000000 *)
+  wire [4:0] enc_in_ctr2;
   (* src = "merge.py:49" *)
   output [61:0] enc_out;
   reg [61:0] enc_out = 62'h0000000000000000;
-  (* init = 6'h00 *)
+  (* src = "merge.py:49" *)
+  reg [61:0] \enc_out$next ;
   (* src = "merge.py:50" *)
   output [5:0] enc_out_ctr;
   reg [5:0] enc_out_ctr = 6'h00;
+  (* src = "merge.py:50" *)
+  reg [5:0] \enc_out_ctr$next ;
   (* src = "merge.py:57" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "merge.py:58" *)
   output end_out;
   reg end_out = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "merge.py:58" *)
+  reg \end_out$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "merge.py:53" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "merge.py:54" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "merge.py:54" *)
+  reg \valid_out$next ;
   assign \$1  = enc_in_ctr1 + (* src = "merge.py:74" *) enc_in_ctr2;
   assign \$3  = enc_in1 <<< (* src = "merge.py:75" *) enc_in_ctr2;
   assign \$5  = \$3  | (* src = "merge.py:75" *) enc_in2;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      enc_out_ctr <= \$next\enc_out_ctr ;
+    enc_out_ctr <= \enc_out_ctr$next ;
   always @* begin
-    \$next\enc_out_ctr  = enc_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \enc_out_ctr$next  = enc_out_ctr;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out_ctr  = \$1 ;
+          \enc_out_ctr$next  = \$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr  = 6'h00;
+          \enc_out_ctr$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "merge.py:72" *)
     casez (valid_in)
+      /* src = "merge.py:72" */
       1'h1:
-          \$next\enc_out  = \$5 ;
+          \enc_out$next  = \$5 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 62'h0000000000000000;
+          \enc_out$next  = 62'h0000000000000000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(enc_in_ctr, valid_in, end_in, \enc_in$1 , \enc_in_ctr$2 , rst, clk, enc_out, enc_out_ctr, valid_out, end_out, enc_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(\enc_in_ctr$1 , enc_in, \enc_in$2 , enc_out, enc_out_ctr, valid_in, valid_out, end_in, end_out, clk, rst, enc_in_ctr);
   (* src = "merge.py:43" *)
-  reg [30:0] \$next\enc_in1 ;
+  wire [30:0] \U$$0_enc_in1 ;
   (* src = "merge.py:46" *)
-  reg [30:0] \$next\enc_in2 ;
+  wire [30:0] \U$$0_enc_in2 ;
   (* src = "merge.py:44" *)
-  reg [4:0] \$next\enc_in_ctr1 ;
+  wire [4:0] \U$$0_enc_in_ctr1 ;
   (* src = "merge.py:47" *)
-  reg [4:0] \$next\enc_in_ctr2 ;
-  (* src = "merge.py:112" *)
-  reg [61:0] \$next\enc_out ;
-  (* src = "merge.py:113" *)
-  reg [5:0] \$next\enc_out_ctr ;
+  wire [4:0] \U$$0_enc_in_ctr2 ;
+  (* src = "merge.py:49" *)
+  wire [61:0] \U$$0_enc_out ;
+  (* src = "merge.py:50" *)
+  wire [5:0] \U$$0_enc_out_ctr ;
   (* src = "merge.py:57" *)
-  reg \$next\end_in$4 ;
-  (* src = "merge.py:121" *)
-  reg \$next\end_out ;
+  wire \U$$0_end_in ;
+  (* src = "merge.py:58" *)
+  wire \U$$0_end_out ;
   (* src = "merge.py:53" *)
-  reg \$next\valid_in$3 ;
-  (* src = "merge.py:117" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire \U$$0_valid_in ;
+  (* src = "merge.py:54" *)
+  wire \U$$0_valid_out ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "merge.py:109" *)
   input [30:0] enc_in;
+  wire [30:0] enc_in;
   (* src = "merge.py:109" *)
-  input [30:0] \enc_in$1 ;
-  (* src = "merge.py:43" *)
-  wire [30:0] enc_in1;
-  (* src = "merge.py:46" *)
-  wire [30:0] enc_in2;
+  input [30:0] \enc_in$2 ;
+  wire [30:0] \enc_in$2 ;
   (* src = "merge.py:110" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "merge.py:110" *)
-  input [4:0] \enc_in_ctr$2 ;
-  (* src = "merge.py:44" *)
-  wire [4:0] enc_in_ctr1;
-  (* src = "merge.py:47" *)
-  wire [4:0] enc_in_ctr2;
+  input [4:0] \enc_in_ctr$1 ;
+  wire [4:0] \enc_in_ctr$1 ;
   (* src = "merge.py:112" *)
   output [61:0] enc_out;
-  (* src = "merge.py:49" *)
-  wire [61:0] \enc_out$6 ;
+  wire [61:0] enc_out;
   (* src = "merge.py:113" *)
   output [5:0] enc_out_ctr;
-  (* src = "merge.py:50" *)
-  wire [5:0] \enc_out_ctr$5 ;
+  wire [5:0] enc_out_ctr;
   (* src = "merge.py:120" *)
   input end_in;
-  (* src = "merge.py:57" *)
-  wire \end_in$4 ;
+  wire end_in;
   (* src = "merge.py:121" *)
   output end_out;
-  (* src = "merge.py:58" *)
-  wire \end_out$8 ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire end_out;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "merge.py:116" *)
   input valid_in;
-  (* src = "merge.py:53" *)
-  wire \valid_in$3 ;
+  wire valid_in;
   (* src = "merge.py:117" *)
   output valid_out;
-  (* src = "merge.py:54" *)
-  wire \valid_out$7 ;
-  anonymous \$9  (
+  wire valid_out;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .enc_in1(enc_in1),
-    .enc_in2(enc_in2),
-    .enc_in_ctr1(enc_in_ctr1),
-    .enc_in_ctr2(enc_in_ctr2),
-    .enc_out(\enc_out$6 ),
-    .enc_out_ctr(\enc_out_ctr$5 ),
-    .end_in(\end_in$4 ),
-    .end_out(\end_out$8 ),
+    .enc_in1(\U$$0_enc_in1 ),
+    .enc_in2(\U$$0_enc_in2 ),
+    .enc_in_ctr1(\U$$0_enc_in_ctr1 ),
+    .enc_in_ctr2(\U$$0_enc_in_ctr2 ),
+    .enc_out(\U$$0_enc_out ),
+    .enc_out_ctr(\U$$0_enc_out_ctr ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .valid_in(\valid_in$3 ),
-    .valid_out(\valid_out$7 )
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
   );
-  always @* begin
-    \$next\enc_in1  = 31'h00000000;
-    \$next\enc_in1  = enc_in;
-  end
-  always @* begin
-    \$next\enc_in_ctr1  = 5'h00;
-    \$next\enc_in_ctr1  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\valid_in$3  = 1'h0;
-    \$next\valid_in$3  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$4  = 1'h0;
-    \$next\end_in$4  = end_in;
-  end
-  always @* begin
-    \$next\enc_in2  = 31'h00000000;
-    \$next\enc_in2  = \enc_in$1 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr2  = 5'h00;
-    \$next\enc_in_ctr2  = \enc_in_ctr$2 ;
-  end
-  always @* begin
-    \$next\enc_out  = 62'h0000000000000000;
-    \$next\enc_out  = \enc_out$6 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 6'h00;
-    \$next\enc_out_ctr  = \enc_out_ctr$5 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$7 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$8 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign enc_in_ctr2 = \$next\enc_in_ctr2 ;
-  assign enc_in2 = \$next\enc_in2 ;
-  assign \end_in$4  = \$next\end_in$4 ;
-  assign \valid_in$3  = \$next\valid_in$3 ;
-  assign enc_in_ctr1 = \$next\enc_in_ctr1 ;
-  assign enc_in1 = \$next\enc_in1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_out_ctr = \U$$0_enc_out_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_enc_in_ctr2  = \enc_in_ctr$1 ;
+  assign \U$$0_enc_in2  = \enc_in$2 ;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_enc_in_ctr1  = enc_in_ctr;
+  assign \U$$0_enc_in1  = enc_in;
 endmodule
 
diff --git a/verilog_src/micro_integration.v b/verilog_src/micro_integration.v
index 85434da..90d484c 100644
--- a/verilog_src/micro_integration.v
+++ b/verilog_src/micro_integration.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$129  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,328 +477,381 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$130  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.auto_reset" *)
 (* generator = "nMigen" *)
-module auto_reset(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+(* \nmigen.hierarchy  = "top.auto_reset" *)
+module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$131  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$131 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter" *)
+module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$132  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [14:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [5:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [5:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [14:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [3:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [4:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [14:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [27:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 15'h0000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [14:0] enc_in;
   reg [14:0] enc_in = 15'h0000;
-  (* init = 4'h0 *)
+  (* src = "converter.py:66" *)
+  reg [14:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [3:0] enc_in_ctr;
   reg [3:0] enc_in_ctr = 4'h0;
+  (* src = "converter.py:67" *)
+  reg [3:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [27:0] enc_out;
+  wire [27:0] enc_out;
   (* src = "converter.py:61" *)
   input [4:0] enc_out_ctr;
-  (* init = 5'h00 *)
+  wire [4:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [4:0] enc_out_ctr_reg = 5'h00;
-  (* init = 15'h0000 *)
+  (* src = "converter.py:95" *)
+  reg [4:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [14:0] enc_out_latch = 15'h0000;
-  (* init = 28'h0000000 *)
+  (* src = "converter.py:90" *)
+  reg [14:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [27:0] enc_out_reg = 28'h0000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [27:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 4'hf;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -673,7 +872,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 4'hf;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 5'h1c;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[27:15];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[27:15];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 4'hf;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 5'h1c;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 4'hf;
@@ -683,1290 +882,2226 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[14:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[14:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 15'h0000;
+          \enc_out_latch$next  = 15'h0000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
-          endcase
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
+          endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
-          endcase
-    endcase
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 28'h0000000;
+          \enc_out_reg$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 5'h00;
+          \enc_out_ctr_reg$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[14:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[14:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 15'h0000;
+          \enc_in$next  = 15'h0000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[3:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[3:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 4'hf;
+                      \enc_in_ctr$next  = 4'hf;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [3:0];
+                            \enc_in_ctr$next  = \$52 [3:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 4'hf;
+          \enc_in_ctr$next  = 4'hf;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 4'h0;
+          \enc_in_ctr$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo" *)
+module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$133  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [14:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [3:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [19:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [14:0] enc_in;
+  wire [14:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [3:0] enc_in_ctr;
+  wire [3:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [14:0] enc_out;
+  wire [14:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [3:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [19:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [19:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [3:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [10:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [19:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [19:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 10'h3fb;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   \fifo$2  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 20'h00000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 15'h0000;
-    \$next\enc_out  = fifo_dout[14:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 4'h0;
-    \$next\enc_out_ctr  = fifo_dout[18:15];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[19];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[19];
+  assign enc_out_ctr = fifo_r_data[18:15];
+  assign enc_out = fifo_r_data[14:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.core_axi_lite" *)
 (* generator = "nMigen" *)
-module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, full_clk, clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, rp_data);
-  wire [63:0] \$1 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.core_axi_lite" *)
+module core_axi_lite(full_clk, rst, full_rst, height, width, allowed_cycles, rp_data, rp_addr, wp_addr, wp_data, wp_en, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready
+, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$134  = 0;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$1 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$100 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$102 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$104 ;
+  (* src = "core_axi_lite.py:376" *)
   wire \$106 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$108 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$11 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$110 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$112 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$114 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$116 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$118 ;
-  wire [7:0] \$13 ;
-  wire [7:0] \$15 ;
-  wire [7:0] \$17 ;
-  wire [7:0] \$19 ;
-  wire [31:0] \$21 ;
-  wire [31:0] \$23 ;
-  wire [31:0] \$25 ;
-  wire [31:0] \$26 ;
-  wire [31:0] \$28 ;
-  wire [31:0] \$29 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$120 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$122 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$124 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$126 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$128 ;
+  (* src = "core_axi_lite.py:101" *)
+  wire [63:0] \$13 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$130 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$132 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$134 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$136 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$138 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$140 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$142 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$144 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$146 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$148 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$15 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$150 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$152 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$154 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$156 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$158 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$160 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$162 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$164 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$166 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$168 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$17 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$170 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$172 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$174 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$176 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$19 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$21 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$23 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$25 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$27 ;
+  (* src = "core_axi_lite.py:251" *)
+  wire \$29 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$3 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$31 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$33 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$35 ;
-  wire \$37 ;
-  wire \$39 ;
-  wire \$41 ;
-  wire [31:0] \$43 ;
-  wire \$45 ;
+  (* src = "core_axi_lite.py:309" *)
+  wire [31:0] \$37 ;
+  (* src = "core_axi_lite.py:348" *)
+  wire [31:0] \$39 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$41 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$42 ;
+  (* src = "core_axi_lite.py:349" *)
+  wire [31:0] \$44 ;
+  (* src = "core_axi_lite.py:349" *)
+  wire [31:0] \$45 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$47 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$49 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$5 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$51 ;
+  (* src = "core_axi_lite.py:330" *)
   wire \$53 ;
+  (* src = "core_axi_lite.py:242" *)
   wire \$55 ;
+  (* src = "core_axi_lite.py:213" *)
   wire \$57 ;
-  wire \$59 ;
+  (* src = "core_axi_lite.py:84" *)
+  wire [31:0] \$59 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$61 ;
-  wire [5:0] \$63 ;
-  wire [5:0] \$64 ;
-  wire \$66 ;
-  wire \$68 ;
+  (* src = "core_axi_lite.py:327" *)
+  wire \$63 ;
+  (* src = "core_axi_lite.py:327" *)
+  wire \$65 ;
+  (* src = "core_axi_lite.py:330" *)
+  wire \$67 ;
+  (* src = "core_axi_lite.py:213" *)
+  wire \$69 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$7 ;
-  wire \$70 ;
-  wire \$72 ;
-  wire \$74 ;
-  wire \$76 ;
-  wire \$78 ;
-  wire \$80 ;
-  wire \$82 ;
-  wire \$84 ;
-  wire \$86 ;
-  wire \$88 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$71 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$73 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$75 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$77 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$79 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$81 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$83 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$85 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$87 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$89 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$9 ;
-  wire \$90 ;
-  wire \$92 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$91 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$92 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$94 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$96 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$98 ;
   (* src = "core_axi_lite.py:162" *)
-  reg [31:0] \$next\addr_v ;
-  (* src = "core_axi_lite.py:84" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "core_axi_lite.py:164" *)
-  reg \$next\arready_v ;
-  (* src = "core_axi_lite.py:167" *)
-  reg \$next\awready_v ;
-  (* src = "core_axi_lite.py:174" *)
-  reg [1:0] \$next\bresp_v ;
-  (* src = "core_axi_lite.py:169" *)
-  reg \$next\bvalid_v ;
-  (* src = "core_axi_lite.py:188" *)
-  reg \$next\debug_enable ;
-  (* src = "core_axi_lite.py:190" *)
-  reg [2:0] \$next\debug_index ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [3:0] \$next\fsm_state ;
-  (* src = "core_axi_lite.py:80" *)
-  reg [15:0] \$next\height ;
-  (* src = "core_axi_lite.py:111" *)
-  reg [31:0] \$next\height_width ;
-  (* src = "core_axi_lite.py:187" *)
-  reg \$next\hw_enable ;
-  (* src = "core_axi_lite.py:191" *)
-  reg \$next\hw_index ;
-  (* src = "core_axi_lite.py:171" *)
-  reg [31:0] \$next\rdata_v ;
-  (* src = "core_axi_lite.py:100" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "core_axi_lite.py:207" *)
-  reg [63:0] \$next\rp_data64 ;
-  (* src = "core_axi_lite.py:206" *)
-  reg [63:0] \$next\rp_data64_in ;
-  (* src = "core_axi_lite.py:172" *)
-  reg [1:0] \$next\rresp_v ;
-  (* src = "core_axi_lite.py:165" *)
-  reg \$next\rvalid_v ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__arready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\s_axi_ro__rdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_ro__rresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__rvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__awready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_wo__bresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__bvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__wready ;
-  (* src = "core_axi_lite.py:186" *)
-  reg \$next\ssss_enable ;
-  (* src = "core_axi_lite.py:189" *)
-  reg [5:0] \$next\ssss_index ;
-  (* src = "core_axi_lite.py:177" *)
-  reg [31:0] \$next\wdata_v ;
-  (* src = "core_axi_lite.py:81" *)
-  reg [15:0] \$next\width ;
-  (* src = "core_axi_lite.py:95" *)
-  reg [4:0] \$next\wp_addr ;
-  (* src = "core_axi_lite.py:96" *)
-  reg [32:0] \$next\wp_data ;
-  (* src = "core_axi_lite.py:97" *)
-  reg \$next\wp_en ;
-  (* src = "core_axi_lite.py:168" *)
-  reg \$next\wready_v ;
-  (* src = "core_axi_lite.py:178" *)
-  reg [3:0] \$next\wstrb_v ;
-  (* init = 32'd0 *)
-  (* src = "core_axi_lite.py:162" *)
   reg [31:0] addr_v = 32'd0;
-  (* init = 24'h000000 *)
+  (* src = "core_axi_lite.py:162" *)
+  reg [31:0] \addr_v$next ;
   (* src = "core_axi_lite.py:84" *)
   output [23:0] allowed_cycles;
   reg [23:0] allowed_cycles = 24'h000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:84" *)
+  reg [23:0] \allowed_cycles$next ;
   (* src = "core_axi_lite.py:164" *)
   reg arready_v = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:164" *)
+  reg \arready_v$next ;
   (* src = "core_axi_lite.py:167" *)
   reg awready_v = 1'h0;
-  (* init = 2'h0 *)
+  (* src = "core_axi_lite.py:167" *)
+  reg \awready_v$next ;
   (* src = "core_axi_lite.py:174" *)
   reg [1:0] bresp_v = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:174" *)
+  reg [1:0] \bresp_v$next ;
   (* src = "core_axi_lite.py:169" *)
   reg bvalid_v = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "core_axi_lite.py:169" *)
+  reg \bvalid_v$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "core_axi_lite.py:188" *)
   wire debug_enable;
   (* src = "core_axi_lite.py:190" *)
   wire [2:0] debug_index;
-  (* init = 4'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "core_axi_lite.py:291" *)
   reg [3:0] fsm_state = 4'h0;
+  (* src = "core_axi_lite.py:291" *)
+  reg [3:0] \fsm_state$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "core_axi_lite.py:80" *)
   output [15:0] height;
-  (* init = 32'd0 *)
+  wire [15:0] height;
   (* src = "core_axi_lite.py:111" *)
   reg [31:0] height_width = 32'd0;
+  (* src = "core_axi_lite.py:111" *)
+  reg [31:0] \height_width$next ;
   (* src = "core_axi_lite.py:187" *)
   wire hw_enable;
   (* src = "core_axi_lite.py:191" *)
   wire hw_index;
-  (* init = 32'd0 *)
   (* src = "core_axi_lite.py:171" *)
   reg [31:0] rdata_v = 32'd0;
-  (* init = 5'h00 *)
+  (* src = "core_axi_lite.py:171" *)
+  reg [31:0] \rdata_v$next ;
   (* src = "core_axi_lite.py:100" *)
   output [4:0] rp_addr;
   reg [4:0] rp_addr = 5'h00;
+  (* src = "core_axi_lite.py:100" *)
+  reg [4:0] \rp_addr$next ;
   (* src = "core_axi_lite.py:101" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "core_axi_lite.py:207" *)
   wire [63:0] rp_data64;
   (* src = "core_axi_lite.py:206" *)
-  wire [63:0] rp_data64_in;
-  (* init = 2'h0 *)
+  reg [63:0] rp_data64_in;
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
+  (* src = "core_axi_lite.py:172" *)
+  reg [1:0] \rresp_v$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:165" *)
+  reg \rvalid_v$next ;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__arready;
   wire s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:74" *)
+  output [31:0] s_axi_ro__rdata;
   wire [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:74" *)
+  output [1:0] s_axi_ro__rresp;
   wire [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__rvalid;
   wire s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__awready;
   wire s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:76" *)
+  output [1:0] s_axi_wo__bresp;
   wire [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__bvalid;
   wire s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__wready;
   wire s_axi_wo__wready;
   (* src = "core_axi_lite.py:186" *)
   wire ssss_enable;
   (* src = "core_axi_lite.py:189" *)
   wire [5:0] ssss_index;
   (* src = "core_axi_lite.py:177" *)
-  wire [31:0] wdata_v;
+  reg [31:0] wdata_v;
   (* src = "core_axi_lite.py:81" *)
   output [15:0] width;
-  (* init = 5'h00 *)
+  wire [15:0] width;
   (* src = "core_axi_lite.py:95" *)
   output [4:0] wp_addr;
   reg [4:0] wp_addr = 5'h00;
-  (* init = 33'h000000000 *)
+  (* src = "core_axi_lite.py:95" *)
+  reg [4:0] \wp_addr$next ;
   (* src = "core_axi_lite.py:96" *)
   output [32:0] wp_data;
   reg [32:0] wp_data = 33'h000000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:96" *)
+  reg [32:0] \wp_data$next ;
   (* src = "core_axi_lite.py:97" *)
   output wp_en;
   reg wp_en = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:97" *)
+  reg \wp_en$next ;
   (* src = "core_axi_lite.py:168" *)
   reg wready_v = 1'h0;
+  (* src = "core_axi_lite.py:168" *)
+  reg \wready_v$next ;
   (* src = "core_axi_lite.py:178" *)
-  wire [3:0] wstrb_v;
-  assign \$9  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$100  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$102  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$104  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$106  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$108  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$110  = \$106  & (* src = "core_axi_lite.py:372" *) \$108 ;
-  assign \$112  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$114  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$116  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$118  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$11  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$13  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$15  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$17  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$1  = + (* src = "core_axi_lite.py:101" *) rp_data;
-  assign \$19  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$21  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
-  assign \$23  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
-  assign \$26  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
-  assign \$29  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
-  assign \$31  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
-  assign \$33  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
-  assign \$35  = \$31  & (* src = "core_axi_lite.py:327" *) \$33 ;
-  assign \$37  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
-  assign \$3  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$39  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
-  assign \$41  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$43  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
-  assign \$45  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
-  assign \$47  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
-  assign \$49  = \$45  & (* src = "core_axi_lite.py:327" *) \$47 ;
-  assign \$51  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
-  assign \$53  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$55  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$57  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$5  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$59  = \$55  & (* src = "core_axi_lite.py:372" *) \$57 ;
-  assign \$61  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$64  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
-  assign \$66  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$68  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$70  = \$66  & (* src = "core_axi_lite.py:372" *) \$68 ;
-  assign \$72  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$74  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$76  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$78  = \$74  & (* src = "core_axi_lite.py:372" *) \$76 ;
-  assign \$7  = \$3  & (* src = "core_axi_lite.py:372" *) \$5 ;
-  assign \$80  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$82  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$84  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$86  = \$82  & (* src = "core_axi_lite.py:372" *) \$84 ;
-  assign \$88  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$90  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$92  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$94  = \$90  & (* src = "core_axi_lite.py:372" *) \$92 ;
-  assign \$96  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$98  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  reg [3:0] wstrb_v;
+  assign \$9  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$100  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$102  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$104  = \$100  & (* src = "core_axi_lite.py:373" *) \$102 ;
+  assign \$106  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$108  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$110  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$112  = \$108  & (* src = "core_axi_lite.py:366" *) \$110 ;
+  assign \$114  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$116  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$118  = \$114  & (* src = "core_axi_lite.py:373" *) \$116 ;
+  assign \$11  = \$7  & (* src = "core_axi_lite.py:366" *) \$9 ;
+  assign \$120  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$122  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$124  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$126  = \$122  & (* src = "core_axi_lite.py:366" *) \$124 ;
+  assign \$128  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$130  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$132  = \$128  & (* src = "core_axi_lite.py:373" *) \$130 ;
+  assign \$134  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$136  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$138  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$13  = + (* src = "core_axi_lite.py:101" *) rp_data;
+  assign \$140  = \$136  & (* src = "core_axi_lite.py:366" *) \$138 ;
+  assign \$142  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$144  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$146  = \$142  & (* src = "core_axi_lite.py:373" *) \$144 ;
+  assign \$148  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$150  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$152  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$154  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$156  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$158  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$15  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$160  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$162  = \$158  & (* src = "core_axi_lite.py:366" *) \$160 ;
+  assign \$164  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$166  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$168  = \$164  & (* src = "core_axi_lite.py:373" *) \$166 ;
+  assign \$170  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$172  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$174  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$176  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$17  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$1  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$19  = \$15  & (* src = "core_axi_lite.py:366" *) \$17 ;
+  assign \$21  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$23  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$25  = \$21  & (* src = "core_axi_lite.py:373" *) \$23 ;
+  assign \$27  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$29  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
+  assign \$31  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$33  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$35  = \$31  & (* src = "core_axi_lite.py:366" *) \$33 ;
+  assign \$37  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
+  assign \$3  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$39  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
+  assign \$42  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
+  assign \$45  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
+  assign \$47  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
+  assign \$49  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
+  assign \$51  = \$47  & (* src = "core_axi_lite.py:327" *) \$49 ;
+  assign \$53  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
+  assign \$55  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
+  assign \$57  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$5  = \$1  & (* src = "core_axi_lite.py:366" *) \$3 ;
+  assign \$59  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
+  assign \$61  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
+  assign \$63  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
+  assign \$65  = \$61  & (* src = "core_axi_lite.py:327" *) \$63 ;
+  assign \$67  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
+  assign \$69  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$71  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$73  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$75  = \$71  & (* src = "core_axi_lite.py:366" *) \$73 ;
+  assign \$77  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$7  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$79  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$81  = \$77  & (* src = "core_axi_lite.py:366" *) \$79 ;
+  assign \$83  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$85  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$87  = \$83  & (* src = "core_axi_lite.py:373" *) \$85 ;
+  assign \$89  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$92  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
+  assign \$94  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$96  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$98  = \$94  & (* src = "core_axi_lite.py:366" *) \$96 ;
   always @(posedge full_clk)
-      allowed_cycles <= \$next\allowed_cycles ;
+    allowed_cycles <= \allowed_cycles$next ;
   always @(posedge full_clk)
-      height_width <= \$next\height_width ;
+    height_width <= \height_width$next ;
   always @(posedge full_clk)
-      bresp_v <= \$next\bresp_v ;
+    bresp_v <= \bresp_v$next ;
   always @(posedge full_clk)
-      wp_en <= \$next\wp_en ;
+    wp_en <= \wp_en$next ;
   always @(posedge full_clk)
-      wp_data <= \$next\wp_data ;
+    wp_data <= \wp_data$next ;
   always @(posedge full_clk)
-      wp_addr <= \$next\wp_addr ;
+    wp_addr <= \wp_addr$next ;
   always @(posedge full_clk)
-      wready_v <= \$next\wready_v ;
+    wready_v <= \wready_v$next ;
   always @(posedge full_clk)
-      awready_v <= \$next\awready_v ;
+    awready_v <= \awready_v$next ;
   always @(posedge full_clk)
-      rresp_v <= \$next\rresp_v ;
+    rresp_v <= \rresp_v$next ;
   always @(posedge full_clk)
-      rdata_v <= \$next\rdata_v ;
+    rdata_v <= \rdata_v$next ;
   always @(posedge full_clk)
-      arready_v <= \$next\arready_v ;
+    arready_v <= \arready_v$next ;
   always @(posedge full_clk)
-      rp_addr <= \$next\rp_addr ;
+    rp_addr <= \rp_addr$next ;
   always @(posedge full_clk)
-      addr_v <= \$next\addr_v ;
+    addr_v <= \addr_v$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge full_clk)
-      bvalid_v <= \$next\bvalid_v ;
+    bvalid_v <= \bvalid_v$next ;
   always @(posedge full_clk)
-      rvalid_v <= \$next\rvalid_v ;
+    rvalid_v <= \rvalid_v$next ;
   always @* begin
-    \$next\wdata_v  = 32'd0;
-    \$next\wdata_v  = 32'd0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    wdata_v = 32'd0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$5 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wdata_v  = s_axi_wi__wdata;
+                wdata_v = s_axi_wi__wdata;
           endcase
     endcase
   end
   always @* begin
-    \$next\wstrb_v  = 4'h0;
-    \$next\wstrb_v  = 4'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    wstrb_v = 4'h0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$11 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wstrb_v  = s_axi_wi__wstrb;
+                wstrb_v = s_axi_wi__wstrb;
           endcase
     endcase
   end
   always @* begin
-    \$next\rvalid_v  = rvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rvalid_v$next  = rvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\rvalid_v  = 1'h1;
+                \rvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bvalid_v  = bvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \bvalid_v$next  = bvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
+      4'h8:
+          /* empty */;
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\bvalid_v  = 1'h1;
+                \bvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
+          (* src = "core_axi_lite.py:300" *)
           casez ({ s_axi_wi__awvalid, s_axi_ri__arvalid })
-            2'bz1:
-                \$next\fsm_state  = 4'h1;
-            2'b1z:
-                \$next\fsm_state  = 4'h2;
-          endcase
+            /* src = "core_axi_lite.py:300" */
+            2'b?1:
+                \fsm_state$next  = 4'h1;
+            /* src = "core_axi_lite.py:302" */
+            2'b1?:
+                \fsm_state$next  = 4'h2;
+          endcase
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\fsm_state  = 4'h3;
+          \fsm_state$next  = 4'h3;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\fsm_state  = 4'h4;
+          \fsm_state$next  = 4'h4;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
       4'h4:
-          \$next\fsm_state  = 4'h5;
+          \fsm_state$next  = 4'h5;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\fsm_state  = 4'h6;
+          \fsm_state$next  = 4'h6;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\fsm_state  = 4'h7;
+          \fsm_state$next  = 4'h7;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
       4'h7:
-          \$next\fsm_state  = 4'h8;
+          \fsm_state$next  = 4'h8;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$35 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\fsm_state  = 4'h9;
+                \fsm_state$next  = 4'h9;
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 4'h0;
+          \fsm_state$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\addr_v  = addr_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \addr_v$next  = addr_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\addr_v  = \$21 ;
+          \addr_v$next  = \$37 ;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\addr_v  = \$23 ;
+          \addr_v$next  = \$39 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\addr_v  = 32'd0;
+          \addr_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = rp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rp_addr$next  = rp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\rp_addr  = \$25 [4:0];
+          \rp_addr$next  = \$42 [4:0];
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\rp_addr  = \$28 [4:0];
+          \rp_addr$next  = \$45 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rp_addr  = 5'h00;
+          \rp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\arready_v  = arready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \arready_v$next  = arready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\arready_v  = 1'h1;
+          \arready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdata_v  = rdata_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rdata_v$next  = rdata_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$37 , \$35  })
-            2'bz1:
-                casez (\$39 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$53 , \$51  })
+            /* src = "core_axi_lite.py:327" */
+            2'b?1:
+                (* src = "core_axi_lite.py:242" *)
+                casez (\$55 )
+                  /* src = "core_axi_lite.py:242" */
                   1'h1:
-                      \$next\rdata_v  = rp_data64[31:0];
-                  1'hz:
-                      \$next\rdata_v  = rp_data64[63:32];
+                      \rdata_v$next  = rp_data64[31:0];
+                  /* src = "core_axi_lite.py:245" */
+                  default:
+                      \rdata_v$next  = rp_data64[63:32];
                 endcase
-            2'b1z:
-                casez (\$41 )
+            /* src = "core_axi_lite.py:330" */
+            2'b1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$57 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rdata_v  = height_width;
-                  1'hz:
-                      \$next\rdata_v  = \$43 ;
+                      \rdata_v$next  = height_width;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rdata_v$next  = \$59 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rdata_v  = 32'd0;
+          \rdata_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rresp_v  = rresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rresp_v$next  = rresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$51 , \$49  })
-            2'bz1:
-                \$next\rresp_v  = 2'h0;
-            2'b1z:
-                casez (\$53 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$67 , \$65  })
+            /* src = "core_axi_lite.py:327" */
+            2'b?1:
+                \rresp_v$next  = 2'h0;
+            /* src = "core_axi_lite.py:330" */
+            2'b1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$69 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rresp_v  = 2'h0;
-                  1'hz:
-                      \$next\rresp_v  = 2'h0;
+                      \rresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rresp_v$next  = 2'h0;
                 endcase
-            2'hz:
-                \$next\rresp_v  = 2'h3;
+            /* src = "core_axi_lite.py:337" */
+            default:
+                \rresp_v$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rresp_v  = 2'h0;
+          \rresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\awready_v  = awready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \awready_v$next  = awready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\awready_v  = 1'h1;
+          \awready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wready_v  = wready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wready_v$next  = wready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          \$next\wready_v  = 1'h1;
+        begin
+          \wready_v$next  = 1'h1;
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$75 )
+            /* src = "core_axi_lite.py:366" */
+            1'h1:
+                \wready_v$next  = 1'h0;
+          endcase
+        end
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_enable  = 1'h0;
-    \$next\ssss_enable  = addr_v[10];
-  end
-  always @* begin
-    \$next\wp_addr  = wp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wp_addr$next  = wp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$81 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$61 , \$59  })
-                  2'bz1:
-                      \$next\wp_addr  = \$63 [4:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$89 , \$87  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_addr$next  = \$92 [4:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_addr  = 5'h00;
+          \wp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\wp_data  = wp_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wp_data$next  = wp_data;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$98 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$72 , \$70  })
-                  2'bz1:
-                      \$next\wp_data  = rp_data64_in[32:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$106 , \$104  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_data$next  = rp_data64_in[32:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_data  = 33'h000000000;
+          \wp_data$next  = 33'h000000000;
     endcase
   end
   always @* begin
-    \$next\wp_en  = wp_en;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wp_en$next  = wp_en;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$112 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$80 , \$78  })
-                  2'bz1:
-                      \$next\wp_en  = 1'h1;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$120 , \$118  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_en$next  = 1'h1;
                 endcase
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bresp_v  = bresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \bresp_v$next  = bresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$126 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$88 , \$86  })
-                  2'bz1:
-                      \$next\bresp_v  = 2'h0;
-                  2'b1z:
-                      \$next\bresp_v  = 2'h0;
-                  2'hz:
-                      \$next\bresp_v  = 2'h3;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$134 , \$132  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:383" */
+                  default:
+                      \bresp_v$next  = 2'h3;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bresp_v  = 2'h0;
+          \bresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\height_width  = height_width;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \height_width$next  = height_width;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$140 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$96 , \$94  })
-                  2'bz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$148 , \$146  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
                       /* empty */;
-                  2'b1z:
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$98 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$150 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [7:0] = wdata_v[7:0];
+                                  \height_width$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$100 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$152 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [15:8] = wdata_v[15:8];
+                                  \height_width$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$102 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$154 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [23:16] = wdata_v[23:16];
+                                  \height_width$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[3])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$104 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$156 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [31:24] = wdata_v[31:24];
+                                  \height_width$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_width  = 32'd0;
+          \height_width$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles  = allowed_cycles;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \allowed_cycles$next  = allowed_cycles;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$162 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$112 , \$110  })
-                  2'bz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$170 , \$168  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
                       /* empty */;
-                  2'b1z:
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$114 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$172 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$116 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$174 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$118 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$176 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles  = 24'h000000;
+          \allowed_cycles$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\s_axi_ro__arready  = 1'h0;
-    \$next\s_axi_ro__arready  = arready_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rvalid  = 1'h0;
-    \$next\s_axi_ro__rvalid  = rvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__awready  = 1'h0;
-    \$next\s_axi_wo__awready  = awready_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__wready  = 1'h0;
-    \$next\s_axi_wo__wready  = wready_v;
-  end
-  always @* begin
-    \$next\hw_enable  = 1'h0;
-    \$next\hw_enable  = addr_v[11];
-  end
-  always @* begin
-    \$next\s_axi_wo__bvalid  = 1'h0;
-    \$next\s_axi_wo__bvalid  = bvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rdata  = 32'd0;
-    \$next\s_axi_ro__rdata  = rdata_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rresp  = 2'h0;
-    \$next\s_axi_ro__rresp  = rresp_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__bresp  = 2'h0;
-    \$next\s_axi_wo__bresp  = bresp_v;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_width[15:0];
-  end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = height_width[31:16];
-  end
-  always @* begin
-    \$next\debug_enable  = 1'h0;
-    \$next\debug_enable  = addr_v[12];
-  end
-  always @* begin
-    \$next\ssss_index  = 6'h00;
-    \$next\ssss_index  = addr_v[5:0];
-  end
-  always @* begin
-    \$next\debug_index  = 3'h0;
-    \$next\debug_index  = addr_v[2:0];
-  end
-  always @* begin
-    \$next\hw_index  = 1'h0;
-    \$next\hw_index  = addr_v[0];
-  end
-  always @* begin
-    \$next\rp_data64  = 64'h0000000000000000;
-    \$next\rp_data64  = \$1 ;
-  end
-  always @* begin
-    \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    rp_data64_in = rp_data64;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$19 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$9 , \$7  })
-                  2'bz1:
-                      casez (\$11 )
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$27 , \$25  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      (* src = "core_axi_lite.py:251" *)
+                      casez (\$29 )
+                        /* src = "core_axi_lite.py:251" */
                         1'h1:
                           begin
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [7:0] = wdata_v[7:0];
-                              1'hz:
-                                  \$next\rp_data64_in [7:0] = rp_data64[7:0];
+                                  rp_data64_in[7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[7:0] = rp_data64[7:0];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [15:8] = wdata_v[15:8];
-                              1'hz:
-                                  \$next\rp_data64_in [15:8] = rp_data64[15:8];
+                                  rp_data64_in[15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[15:8] = rp_data64[15:8];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [23:16] = wdata_v[23:16];
-                              1'hz:
-                                  \$next\rp_data64_in [23:16] = rp_data64[23:16];
+                                  rp_data64_in[23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[23:16] = rp_data64[23:16];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [31:24] = wdata_v[31:24];
-                              1'hz:
-                                  \$next\rp_data64_in [31:24] = rp_data64[31:24];
+                                  rp_data64_in[31:24] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[31:24] = rp_data64[31:24];
                             endcase
                           end
-                        1'hz:
+                        /* src = "core_axi_lite.py:260" */
+                        default:
                           begin
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$13 ;
-                              1'hz:
-                                  \$next\rp_data64_in [39:32] = rp_data64[39:32];
+                                  rp_data64_in[39:32] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[39:32] = rp_data64[39:32];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$15 ;
-                              1'hz:
-                                  \$next\rp_data64_in [47:40] = rp_data64[47:40];
+                                  rp_data64_in[47:40] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[47:40] = rp_data64[47:40];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$17 ;
-                              1'hz:
-                                  \$next\rp_data64_in [55:48] = rp_data64[55:48];
+                                  rp_data64_in[55:48] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[55:48] = rp_data64[55:48];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$19 ;
-                              1'hz:
-                                  \$next\rp_data64_in [63:56] = rp_data64[63:56];
+                                  rp_data64_in[63:56] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[63:56] = rp_data64[63:56];
                             endcase
                           end
                       endcase
@@ -1974,217 +3109,221 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
           endcase
     endcase
   end
-  assign \$25  = \$26 ;
-  assign \$28  = \$29 ;
-  assign \$63  = \$64 ;
-  assign width = \$next\width ;
-  assign height = \$next\height ;
-  assign s_axi_wo__bresp = \$next\s_axi_wo__bresp ;
-  assign s_axi_ro__rresp = \$next\s_axi_ro__rresp ;
-  assign s_axi_ro__rdata = \$next\s_axi_ro__rdata ;
-  assign s_axi_wo__bvalid = \$next\s_axi_wo__bvalid ;
-  assign s_axi_wo__wready = \$next\s_axi_wo__wready ;
-  assign s_axi_wo__awready = \$next\s_axi_wo__awready ;
-  assign s_axi_ro__rvalid = \$next\s_axi_ro__rvalid ;
-  assign s_axi_ro__arready = \$next\s_axi_ro__arready ;
-  assign rp_data64_in = \$next\rp_data64_in ;
-  assign rp_data64 = \$next\rp_data64 ;
-  assign hw_index = \$next\hw_index ;
-  assign debug_index = \$next\debug_index ;
-  assign ssss_index = \$next\ssss_index ;
-  assign debug_enable = \$next\debug_enable ;
-  assign hw_enable = \$next\hw_enable ;
-  assign ssss_enable = \$next\ssss_enable ;
-  assign wstrb_v = \$next\wstrb_v ;
-  assign wdata_v = \$next\wdata_v ;
+  assign \$41  = \$42 ;
+  assign \$44  = \$45 ;
+  assign \$91  = \$92 ;
+  assign width = height_width[31:16];
+  assign height = height_width[15:0];
+  assign s_axi_wo__bresp = bresp_v;
+  assign s_axi_ro__rresp = rresp_v;
+  assign s_axi_ro__rdata = rdata_v;
+  assign s_axi_wo__bvalid = bvalid_v;
+  assign s_axi_wo__wready = wready_v;
+  assign s_axi_wo__awready = awready_v;
+  assign s_axi_ro__rvalid = rvalid_v;
+  assign s_axi_ro__arready = arready_v;
+  assign rp_data64 = \$13 ;
+  assign hw_index = addr_v[0];
+  assign debug_index = addr_v[2:0];
+  assign ssss_index = addr_v[5:0];
+  assign debug_enable = addr_v[12];
+  assign hw_enable = addr_v[11];
+  assign ssss_enable = addr_v[10];
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, end_in, rst, clk, val_out, \val_out$1 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.difference" *)
+module difference(rst, pixel_in, predic_in, valid_in, end_in, val_out, \val_out$1 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$135  = 0;
+  (* src = "difference.py:91" *)
   wire [12:0] \$2 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$4 ;
-  wire [12:0] \$5 ;
-  wire [13:0] \$7 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$1 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "difference.py:98" *)
+  wire [13:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:64" *)
   output [12:0] \val_out$1 ;
   reg [12:0] \val_out$1  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$1$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$2  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$5  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$7  = \$5  - (* src = "difference.py:90" *) 1'h1;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$2  = pixel_in - (* src = "difference.py:91" *) predic_in;
+  assign \$5  = diff - (* src = "difference.py:98" *) 1'h1;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$1  <= \$next\val_out$1 ;
+    \val_out$1  <= \val_out$1$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$2 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$2 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$1  = \val_out$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \val_out$1$next  = \val_out$1 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$1  = \$4 [12:0];
+          \val_out$1$next  = \$5 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$1  = 13'h0000;
+          \val_out$1$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$4  = \$7 ;
+  assign \$4  = \$5 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, rst, clk, mem_r_addr, mem_w_en, mem_w_addr, mem_w_data, enc_out, enc_ctr, valid_out, end_out, mem_r_data, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.encode" *)
+module encode(rst, val_in, ssss, valid_in, end_in, mem_r_data, mem_r_addr, mem_w_addr, mem_w_data, mem_w_en, enc_out, enc_ctr, valid_out, end_out, clk);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$2 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$11 ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$3 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$4 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$1 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$8 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$7 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$2 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$6 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:201" *)
   input [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$11 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  wire [3:0] mem_r_addr;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$2 ;
+  (* src = "encode.py:201" *)
   output [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$12 ;
-  (* src = "nmigen/hdl/mem.py:146" *)
+  wire [32:0] mem_r_data;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$3 ;
+  (* src = "encode.py:200" *)
   input [3:0] mem_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
+  wire [3:0] mem_w_addr;
+  (* src = "encode.py:200" *)
   input [32:0] mem_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
+  wire [32:0] mem_w_data;
+  (* src = "encode.py:200" *)
   input mem_w_en;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
+  wire mem_w_en;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$3 ;
+  wire [4:0] ssss;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$4 ;
+  wire [11:0] val_in;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$1 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$5 ;
-  \anonymous$1  \$9  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$8 ),
-    .enc_out(\enc_out$7 ),
-    .end_in(\end_in$2 ),
-    .end_out(\end_out$6 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$3 ),
-    .val_in(\val_in$4 ),
-    .valid_in(\valid_in$1 ),
-    .valid_out(\valid_out$5 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -2201,471 +3340,450 @@ module encode(end_in, valid_in, ssss, rst, clk, mem_r_addr, mem_w_en, mem_w_addr
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
+  always @(posedge clk) begin
+    if (mem_w_en)
+      mem[mem_w_addr] <= mem_w_data;
+  end
   reg [3:0] _0_;
   reg [3:0] _1_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$11 ;
+    _0_ <= \mem_r_addr$2 ;
     _1_ <= mem_r_addr;
-    if (mem_w_en) mem[mem_w_addr] <= mem_w_data;
   end
-  assign \mem_r_data$12  = mem[_0_];
+  assign \mem_r_data$3  = mem[_0_];
   assign mem_r_data = mem[_1_];
-  always @* begin
-    \$next\val_in$4  = 12'h000;
-    \$next\val_in$4  = val_in;
-  end
-  always @* begin
-    \$next\end_in$2  = 1'h0;
-    \$next\end_in$2  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$1  = 1'h0;
-    \$next\valid_in$1  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr$11  = 4'h0;
-    \$next\mem_r_addr$11  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = \mem_r_data$12 ;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$7 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$8 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$5 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$6 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign \mem_r_addr$11  = \$next\mem_r_addr$11 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \valid_in$1  = \$next\valid_in$1 ;
-  assign \end_in$2  = \$next\end_in$2 ;
-  assign \val_in$4  = \$next\val_in$4 ;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = \mem_r_data$3 ;
+  assign \mem_r_addr$2  = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$136  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [33:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [33:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [33:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [33:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [33:0] r_data;
+  wire [33:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [33:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [33:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [33:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [33:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [33:0] w_data;
+  wire [33:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 34'h000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 34'h000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$2 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo" *)
+module \fifo$2 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$137  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [10:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [19:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [10:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [19:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [19:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [19:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [10:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [10:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [19:0] r_data;
+  wire [19:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [19:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [19:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [9:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [19:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [19:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [19:0] w_data;
+  wire [19:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
+    r_rdy <= \r_rdy$next ;
   \unbuffered$3  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 20'h00000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 20'h00000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 11'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_out_ctr, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.fix_0xff" *)
+module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_out, end_out, data_out_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$138  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
+  output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -2737,449 +3855,673 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_o
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
-    endcase
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
-    endcase
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.fix_0xff2" *)
 (* generator = "nMigen" *)
-module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, data_out, o_busy, end_out, i_busy);
+(* \nmigen.hierarchy  = "top.fix_0xff2" *)
+module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$139  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -3292,24 +4634,24 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -3320,1061 +4662,1591 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
-              begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
-          endcase
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
+          endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.force_end" *)
+module force_end(rst, allowed_cycles, valid_in, fend, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$140  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.input_handler" *)
+module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$141  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [6:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [6:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [6:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [6:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [6:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [6:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [6:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [6:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [6:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [6:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [5:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [5:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [40:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [14:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [3:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [3:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [14:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [5:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [5:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 6'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [5:0] buff_consum;
   reg [5:0] buff_consum = 6'h00;
-  (* init = 6'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [5:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [5:0] buff_free = 6'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [5:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 41'h00000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [40:0] buffer;
   reg [40:0] buffer = 41'h00000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [40:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [14:0] enc_in;
-  (* init = 15'h0000 *)
+  wire [14:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [14:0] enc_in_buff = 15'h0000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [14:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [3:0] enc_in_ctr;
-  (* init = 4'h0 *)
+  wire [3:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [3:0] enc_in_ctr_buff = 4'h0;
-  (* init = 4'h0 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [3:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [3:0] enc_in_ctr_reg = 4'h0;
-  (* init = 15'h0000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [3:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [14:0] enc_in_reg = 15'h0000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [14:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [5:0] new_buff_consum;
+  reg [5:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [5:0] new_buff_free;
+  reg [5:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4405,409 +6277,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 4'h0;
+          \enc_in_ctr_reg$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [40:0];
+          \buffer$next  = \$30 [40:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [40:0];
+                      \buffer$next  = \$37 [40:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 41'h00000000000;
+          \buffer$next  = 41'h00000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 6'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    new_buff_free = 6'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [5:0];
-      1'hz:
+          new_buff_free = \$46 [5:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [5:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [5:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [5:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [5:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 6'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    new_buff_consum = 6'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [5:0];
-      1'hz:
+          new_buff_consum = \$59 [5:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [5:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [5:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [5:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [5:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 6'h00;
+          \buff_consum$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 6'h29;
+          \buff_free$next  = 6'h29;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 6'h00;
+          \buff_free$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 15'h0000;
+          \enc_in_buff$next  = 15'h0000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 4'h0;
+          \enc_in_ctr_buff$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 15'h0000;
+          \enc_in_reg$next  = 15'h0000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -4818,80 +6959,16 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, fend_out, valid_in);
-  (* src = "core_axi_lite.py:101" *)
-  reg [32:0] \$next\core_axi_lite_rp_data ;
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\encode_mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [3:0] \$next\encode_mem_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [32:0] \$next\encode_mem_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\encode_mem_w_en ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1" *)
+module integration_1(full_clk, rst, full_rst, fend_out, end_of_frame, pixel_in, valid_in, enc_out, enc_out_ctr, valid_out, end_out, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready
+, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "core_axi_lite.py:84" *)
   wire [23:0] core_axi_lite_allowed_cycles;
   (* src = "core_axi_lite.py:80" *)
@@ -4924,10 +7001,12 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [27:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [27:0] enc_out;
+  wire [27:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [4:0] enc_out_ctr;
+  wire [4:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:182" *)
@@ -4936,15 +7015,15 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire encode_end_in;
   (* src = "encode.py:192" *)
   wire encode_end_out;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  (* src = "encode.py:201" *)
   wire [3:0] encode_mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:201" *)
   wire [32:0] encode_mem_r_data;
-  (* src = "nmigen/hdl/mem.py:146" *)
+  (* src = "encode.py:200" *)
   wire [3:0] encode_mem_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
+  (* src = "encode.py:200" *)
   wire [32:0] encode_mem_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
+  (* src = "encode.py:200" *)
   wire encode_mem_w_en;
   (* src = "encode.py:179" *)
   wire [4:0] encode_ssss;
@@ -4956,10 +7035,13 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -4968,8 +7050,10 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "normalize.py:207" *)
   wire normalize_end_in;
   (* src = "normalize.py:208" *)
@@ -4986,8 +7070,9 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire normalize_valid_out;
   (* src = "normalize.py:196" *)
   wire [12:0] normalize_vals_in_mns;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
@@ -5006,24 +7091,58 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire predictor_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire rst;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__arready;
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
+  output [31:0] s_axi_ro__rdata;
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
+  output [1:0] s_axi_ro__rresp;
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__rvalid;
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__awready;
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
+  output [1:0] s_axi_wo__bresp;
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__bvalid;
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -5032,10 +7151,12 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   core_axi_lite core_axi_lite (
     .allowed_cycles(core_axi_lite_allowed_cycles),
     .clk(clk),
@@ -5048,12 +7169,20 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
+    .s_axi_ro__arready(s_axi_ro__arready),
+    .s_axi_ro__rdata(s_axi_ro__rdata),
+    .s_axi_ro__rresp(s_axi_ro__rresp),
+    .s_axi_ro__rvalid(s_axi_ro__rvalid),
     .s_axi_wi__awaddr(s_axi_wi__awaddr),
     .s_axi_wi__awvalid(s_axi_wi__awvalid),
     .s_axi_wi__bready(s_axi_wi__bready),
     .s_axi_wi__wdata(s_axi_wi__wdata),
     .s_axi_wi__wstrb(s_axi_wi__wstrb),
     .s_axi_wi__wvalid(s_axi_wi__wvalid),
+    .s_axi_wo__awready(s_axi_wo__awready),
+    .s_axi_wo__bresp(s_axi_wo__bresp),
+    .s_axi_wo__bvalid(s_axi_wo__bvalid),
+    .s_axi_wo__wready(s_axi_wo__wready),
     .width(core_axi_lite_width),
     .wp_addr(core_axi_lite_wp_addr),
     .wp_data(core_axi_lite_wp_data),
@@ -5128,250 +7257,99 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
     .rst(rst),
     .width(signals_width)
   );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = core_axi_lite_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = core_axi_lite_width;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$1 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = core_axi_lite_allowed_cycles;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\core_axi_lite_rp_data  = 33'h000000000;
-    \$next\core_axi_lite_rp_data  = encode_mem_r_data;
-  end
-  always @* begin
-    \$next\encode_mem_r_addr  = 4'h0;
-    \$next\encode_mem_r_addr  = core_axi_lite_rp_addr[3:0];
-  end
-  always @* begin
-    \$next\encode_mem_w_addr  = 4'h0;
-    \$next\encode_mem_w_addr  = core_axi_lite_wp_addr[3:0];
-  end
-  always @* begin
-    \$next\encode_mem_w_data  = 33'h000000000;
-    \$next\encode_mem_w_data  = core_axi_lite_wp_data;
-  end
-  always @* begin
-    \$next\encode_mem_w_en  = 1'h0;
-    \$next\encode_mem_w_en  = core_axi_lite_wp_en;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = encode_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = encode_valid_out;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = encode_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign encode_mem_w_en = \$next\encode_mem_w_en ;
-  assign encode_mem_w_data = \$next\encode_mem_w_data ;
-  assign encode_mem_w_addr = \$next\encode_mem_w_addr ;
-  assign encode_mem_r_addr = \$next\encode_mem_r_addr ;
-  assign core_axi_lite_rp_data = \$next\core_axi_lite_rp_data ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+  assign end_out = encode_end_out;
+  assign valid_out = encode_valid_out;
+  assign enc_out_ctr = encode_enc_ctr;
+  assign enc_out = encode_enc_out;
+  assign encode_mem_w_en = core_axi_lite_wp_en;
+  assign encode_mem_w_data = core_axi_lite_wp_data;
+  assign encode_mem_w_addr = core_axi_lite_wp_addr[3:0];
+  assign encode_mem_r_addr = core_axi_lite_rp_addr[3:0];
+  assign core_axi_lite_rp_data = encode_mem_r_data;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign encode_ssss = normalize_ssss;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign normalize_vals_in_mns = \difference_val_out$1 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign difference_predic_in = predictor_predic_out;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = core_axi_lite_allowed_cycles;
+  assign signals_width = core_axi_lite_width;
+  assign signals_height = core_axi_lite_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, nready, enc_out, enc_out_ctr, valid_out, out_end, fend_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2" *)
+module integration_2(full_clk, rst, full_rst, fend_out, pixel_in, valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready
+, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$142  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$1 ;
+  (* src = "integration_2.py:61" *)
   wire \$11 ;
+  (* src = "integration_2.py:61" *)
   wire \$13 ;
+  (* src = "integration_2.py:61" *)
   wire \$15 ;
+  (* src = "integration_2.py:62" *)
   wire \$17 ;
+  (* src = "integration_2.py:62" *)
   wire \$19 ;
+  (* src = "integration_2.py:62" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$27 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$28 ;
+  (* src = "integration_2.py:62" *)
   wire \$3 ;
+  (* src = "integration_2.py:70" *)
   wire \$30 ;
+  (* src = "integration_2.py:75" *)
   wire \$32 ;
+  (* src = "integration_2.py:75" *)
   wire \$34 ;
+  (* src = "integration_2.py:75" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:80" *)
   wire \$42 ;
+  (* src = "integration_2.py:80" *)
   wire \$44 ;
+  (* src = "integration_2.py:80" *)
   wire \$46 ;
+  (* src = "converter_fifo.py:65" *)
   wire [27:0] \$48 ;
+  (* src = "integration_2.py:62" *)
   wire \$5 ;
+  (* src = "converter_fifo.py:66" *)
   wire [4:0] \$50 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [27:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [4:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [14:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [3:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [27:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [4:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -5412,32 +7390,38 @@ module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [27:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [27:0] enc_out;
+  wire [27:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [4:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [27:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [27:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [4:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -5458,85 +7442,128 @@ module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire rst;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__arready;
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
+  output [31:0] s_axi_ro__rdata;
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
+  output [1:0] s_axi_ro__rresp;
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__rvalid;
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__awready;
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
+  output [1:0] s_axi_wo__bresp;
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__bvalid;
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = \$5  & (* src = "integration_2.py:61" *) \$7 ;
-  assign \$11  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$13  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$15  = \$11  | (* src = "integration_2.py:60" *) \$13 ;
-  assign \$17  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$1  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$19  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$21  = \$17  & (* src = "integration_2.py:61" *) \$19 ;
-  assign \$23  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$25  = \$21  & (* src = "integration_2.py:61" *) \$23 ;
-  assign \$28  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$30  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$32  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$34  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$36  = \$32  | (* src = "integration_2.py:74" *) \$34 ;
-  assign \$38  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$3  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$40  = \$36  | (* src = "integration_2.py:74" *) \$38 ;
-  assign \$42  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$44  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$46  = \$42  & (* src = "integration_2.py:79" *) \$44 ;
+  wire valid_out;
+  assign \$9  = \$5  & (* src = "integration_2.py:62" *) \$7 ;
+  assign \$11  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$13  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$15  = \$11  | (* src = "integration_2.py:61" *) \$13 ;
+  assign \$17  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$1  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$19  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$21  = \$17  & (* src = "integration_2.py:62" *) \$19 ;
+  assign \$23  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$25  = \$21  & (* src = "integration_2.py:62" *) \$23 ;
+  assign \$28  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$30  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$32  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$34  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$36  = \$32  | (* src = "integration_2.py:75" *) \$34 ;
+  assign \$38  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$3  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$40  = \$36  | (* src = "integration_2.py:75" *) \$38 ;
+  assign \$42  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$44  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$46  = \$42  & (* src = "integration_2.py:80" *) \$44 ;
   assign \$48  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$50  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = \$1  & (* src = "integration_2.py:61" *) \$3 ;
-  assign \$7  = nready == (* src = "integration_2.py:61" *) 1'h0;
+  assign \$5  = \$1  & (* src = "integration_2.py:62" *) \$3 ;
+  assign \$7  = nready == (* src = "integration_2.py:62" *) 1'h0;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -5579,12 +7606,20 @@ module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
+    .s_axi_ro__arready(s_axi_ro__arready),
+    .s_axi_ro__rdata(s_axi_ro__rdata),
+    .s_axi_ro__rresp(s_axi_ro__rresp),
+    .s_axi_ro__rvalid(s_axi_ro__rvalid),
     .s_axi_wi__awaddr(s_axi_wi__awaddr),
     .s_axi_wi__awvalid(s_axi_wi__awvalid),
     .s_axi_wi__bready(s_axi_wi__bready),
     .s_axi_wi__wdata(s_axi_wi__wdata),
     .s_axi_wi__wstrb(s_axi_wi__wstrb),
     .s_axi_wi__wvalid(s_axi_wi__wvalid),
+    .s_axi_wo__awready(s_axi_wo__awready),
+    .s_axi_wo__bresp(s_axi_wo__bresp),
+    .s_axi_wo__bvalid(s_axi_wo__bvalid),
+    .s_axi_wo__wready(s_axi_wo__wready),
     .valid_in(integration_1_valid_in),
     .valid_out(integration_1_valid_out)
   );
@@ -5603,255 +7638,196 @@ module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$9 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$15 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_end$next  = \$15 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 28'h0000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 5'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 15'h0000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 4'h0;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$25 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \$48 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = \$50 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$27 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_reset_counter$next  = \$28 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$30 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$40 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$46 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 28'h0000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 5'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
   assign \$27  = \$28 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$50 ;
+  assign enc_out = \$48 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$46 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$40 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, data_out, valid_out, nready, fend_out, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [14:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [3:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* \nmigen.hierarchy  = "top.integration_3" *)
+module integration_3(full_clk, rst, full_rst, pixel_in, valid_in, busy_in, data_out, valid_out, end_out, fend_out, nready, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready
+, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "integration_3.py:25" *)
+  wire clk;
+  (* src = "integration_3.py:26" *)
   output [15:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [15:0] data_out;
+  (* src = "integration_3.py:31" *)
+  output end_out;
   wire end_out;
-  (* src = "integration_1.py:35" *)
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_2.py:24" *)
-  wire [27:0] integration_2_enc_out;
+  wire full_rst;
   (* src = "integration_2.py:25" *)
-  wire [4:0] integration_2_enc_out_ctr;
+  wire [27:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [4:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire rst;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__arready;
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
+  output [31:0] s_axi_ro__rdata;
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
+  output [1:0] s_axi_ro__rresp;
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__rvalid;
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__awready;
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
+  output [1:0] s_axi_wo__bresp;
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__bvalid;
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -5885,12 +7861,20 @@ module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__a
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
+    .s_axi_ro__arready(s_axi_ro__arready),
+    .s_axi_ro__rdata(s_axi_ro__rdata),
+    .s_axi_ro__rresp(s_axi_ro__rresp),
+    .s_axi_ro__rvalid(s_axi_ro__rvalid),
     .s_axi_wi__awaddr(s_axi_wi__awaddr),
     .s_axi_wi__awvalid(s_axi_wi__awvalid),
     .s_axi_wi__bready(s_axi_wi__bready),
     .s_axi_wi__wdata(s_axi_wi__wdata),
     .s_axi_wi__wstrb(s_axi_wi__wstrb),
     .s_axi_wi__wvalid(s_axi_wi__wvalid),
+    .s_axi_wo__awready(s_axi_wo__awready),
+    .s_axi_wo__bresp(s_axi_wo__bresp),
+    .s_axi_wo__bvalid(s_axi_wo__bvalid),
+    .s_axi_wo__wready(s_axi_wo__wready),
     .valid_in(integration_2_valid_in),
     .valid_out(integration_2_valid_out)
   );
@@ -5907,705 +7891,809 @@ module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__a
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 15'h0000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[14:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 4'h0;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[3:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[3:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[14:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$143  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [33:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [27:0] enc_out;
+  wire [27:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [33:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [33:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [33:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [33:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 9'h1f6;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 34'h000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = fifo_dout[27:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = fifo_dout[32:28];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[33];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[33];
+  assign enc_out_ctr = fifo_r_data[32:28];
+  assign enc_out = fifo_r_data[27:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end_out, data_out, i_busy);
+(* \nmigen.hierarchy  = "top.markers" *)
+module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$144  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
-  wire o_busy;
+  output o_busy;
+  reg o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      end_cond <= \$next\end_cond ;
+    end_cond <= \end_cond$next ;
   always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, rst, clk, ssss, val_out, valid_out, end_out, val_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.normalize" *)
+module normalize(rst, val_in, vals_in_mns, valid_in, end_in, val_out, ssss, valid_out, end_out, clk);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$2 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$1 ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$2 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$5 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$4 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$1 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
+  wire [12:0] val_in;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$3 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
+  wire [11:0] val_out;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
-  anonymous \$6  (
+  wire [12:0] vals_in_mns;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$2 ),
-    .end_out(\end_out$5 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$4 ),
-    .val_in(\val_in$1 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$3 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  always @* begin
-    \$next\val_in$1  = 13'h0000;
-    \$next\val_in$1  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$2  = 1'h0;
-    \$next\end_in$2  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$4 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$3 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$5 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$2  = \$next\end_in$2 ;
-  assign valid = \$next\valid ;
-  assign \val_in$1  = \$next\val_in$1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits.output_handler" *)
+module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$145  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [6:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [6:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [6:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [6:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [3:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [4:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [5:0] buff_consum;
+  wire [5:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [40:0] buffer;
+  wire [40:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 16'h0000 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [15:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [3:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [4:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -6644,148 +8732,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @* begin
-    \$next\shift_right  = 5'h00;
-    \$next\shift_right  = \$1 [4:0];
-  end
-  always @* begin
-    \$next\shift_left  = 4'h0;
-    \$next\shift_left  = \$4 [3:0];
-  end
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [15:0];
+                      \data_out$next  = \$40 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [15:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [15:0];
+                      \data_out$next  = \$52 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -6794,129 +8935,130 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [3:0];
+  assign shift_right = \$2 [4:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, end_in, rst, clk, pixel_out, predic_out, valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.predictor" *)
+module predictor(rst, pixel_in, new_row, end_in, valid_in, pixel_out, predic_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$1 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$11 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$13 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$15 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [2:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [2:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [2:0] \$24 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [2:0] \$25 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$3 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$5 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$7 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$9 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$21 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$22 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$23 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg [1:0] \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$27 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$28 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$29 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg [1:0] \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$21  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$21$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$22  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$22$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$23  = 12'h800;
-  (* init = 2'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$23$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg [1:0] buff_ctr = 2'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg [1:0] \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$27  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$27$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$28  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$28$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$29  = 12'h800;
-  (* init = 2'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$29$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg [1:0] lbuff_ctr = 2'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg [1:0] \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
-  (* init = 12'h000 *)
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$9  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 2'h3;
   assign \$11  = \$7  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$9 ;
   assign \$13  = new_row | (* src = "predictor_p1_c4_pix1_2.py:119" *) new_row_reg;
@@ -6928,338 +9070,486 @@ module predictor(new_row, pixel_in, end_in, rst, clk, pixel_out, predic_out, val
   assign \$5  = \$1  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$3 ;
   assign \$7  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$29  <= \$next\lbuff$29 ;
+    \lbuff$29  <= \lbuff$29$next ;
   always @(posedge clk)
-      \lbuff$28  <= \$next\lbuff$28 ;
+    \lbuff$28  <= \lbuff$28$next ;
   always @(posedge clk)
-      \lbuff$27  <= \$next\lbuff$27 ;
+    \lbuff$27  <= \lbuff$27$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$23  <= \$next\buff$23 ;
+    \buff$23  <= \buff$23$next ;
   always @(posedge clk)
-      \buff$22  <= \$next\buff$22 ;
+    \buff$22  <= \buff$22$next ;
   always @(posedge clk)
-      \buff$21  <= \$next\buff$21 ;
+    \buff$21  <= \buff$21$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$11 , \$5  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
-    endcase
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$13 ;
-  end
-  always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$27  = \lbuff$27 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$27$next  = \lbuff$27 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h1:
-                      \$next\lbuff$27  = pixel_in;
+                      \lbuff$27$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$27  = 12'h800;
+          \lbuff$27$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$28  = \lbuff$28 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$28$next  = \lbuff$28 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h1:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h2:
-                      \$next\lbuff$28  = pixel_in;
+                      \lbuff$28$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$28  = 12'h800;
+          \lbuff$28$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$29  = \lbuff$29 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$29$next  = \lbuff$29 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h1:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h2:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h3:
-                      \$next\lbuff$29  = pixel_in;
+                      \lbuff$29$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$29  = 12'h800;
+          \lbuff$29$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h1:
-                      \$next\predic_out  = \lbuff$27 ;
+                      \predic_out$next  = \lbuff$27 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h2:
-                      \$next\predic_out  = \lbuff$28 ;
+                      \predic_out$next  = \lbuff$28 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h3:
-                      \$next\predic_out  = \lbuff$29 ;
+                      \predic_out$next  = \lbuff$29 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h1:
-                      \$next\predic_out  = \buff$21 ;
+                      \predic_out$next  = \buff$21 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h2:
-                      \$next\predic_out  = \buff$22 ;
+                      \predic_out$next  = \buff$22 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h3:
-                      \$next\predic_out  = \buff$23 ;
+                      \predic_out$next  = \buff$23 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$15 [31:0];
+          \debug_counter$next  = \$16 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$18 [1:0];
+          \buff_ctr$next  = \$19 [1:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 2'h0;
+          \buff_ctr$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$21  = \buff$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$21$next  = \buff$21 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h1:
-                \$next\buff$21  = pixel_in;
+                \buff$21$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$21  = 12'h800;
+          \buff$21$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$22  = \buff$22 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$22$next  = \buff$22 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h1:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h2:
-                \$next\buff$22  = pixel_in;
+                \buff$22$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$22  = 12'h800;
+          \buff$22$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$23  = \buff$23 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$23$next  = \buff$23 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h1:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h2:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h3:
-                \$next\buff$23  = pixel_in;
+                \buff$23$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$23  = 12'h800;
+          \buff$23$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$24 [1:0];
+                \lbuff_ctr$next  = \$25 [1:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 2'h0;
+          \lbuff_ctr$next  = 2'h0;
     endcase
   end
   assign \$15  = \$16 ;
   assign \$18  = \$19 ;
   assign \$24  = \$25 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$13 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.integration_1.signals" *)
+module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 1'h1;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -7274,188 +9564,218 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 1'h1;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 1'h1;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
-      2'h2:
-          \$next\end_of_frame  = 1'h1;
-    endcase
-    casez (rst)
-      1'h1:
-          \$next\end_of_frame  = 1'h0;
-    endcase
-  end
-  assign \$1  = \$2 ;
-  assign \$6  = \$7 ;
-  assign \$9  = \$10 ;
-  assign \$14  = \$15 ;
-endmodule
-
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
-(* generator = "nMigen" *)
-module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, end_in, \end_in$1 , valid_out, end_out, data_out, nready, full_clk);
-  wire \$2 ;
-  wire \$4 ;
-  wire \$6 ;
-  wire \$8 ;
-  (* src = "auto_reset.py:34" *)
-  reg \$next\auto_reset_end_in ;
-  (* src = "auto_reset.py:37" *)
-  reg \$next\auto_reset_hs1_in ;
-  (* src = "auto_reset.py:40" *)
-  reg \$next\auto_reset_hs2_in ;
-  (* src = "micro_integration.py:35" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "micro_integration.py:40" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:149" *)
-  reg [31:0] \$next\fix_0xff2_data_in ;
-  (* src = "fix_0xff2.py:150" *)
-  reg [2:0] \$next\fix_0xff2_data_in_ctr ;
-  (* src = "fix_0xff2.py:163" *)
-  reg \$next\fix_0xff2_i_busy ;
-  (* src = "fix_0xff2.py:156" *)
-  reg \$next\fix_0xff2_valid_in ;
-  (* src = "fix_0xff.py:69" *)
-  reg [15:0] \$next\fix_0xff_data_in ;
-  (* src = "fix_0xff.py:79" *)
-  reg \$next\fix_0xff_i_busy ;
-  (* src = "fix_0xff.py:76" *)
-  reg \$next\fix_0xff_valid_in ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\integration_3_busy_in ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\integration_3_clk ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\integration_3_rst ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\integration_3_valid_in ;
-  (* src = "markers.py:35" *)
-  reg [15:0] \$next\markers_data_in ;
-  (* src = "markers.py:44" *)
-  reg \$next\markers_end_in ;
-  (* src = "markers.py:45" *)
-  reg \$next\markers_force_end_in ;
-  (* src = "markers.py:49" *)
-  reg \$next\markers_i_busy ;
-  (* src = "markers.py:41" *)
-  reg \$next\markers_valid_in ;
-  (* src = "micro_integration.py:41" *)
-  reg \$next\nready ;
-  (* src = "micro_integration.py:39" *)
-  reg \$next\valid_out ;
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
+      2'h2:
+          \end_of_frame$next  = 1'h1;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
+    casez (rst)
+      1'h1:
+          \end_of_frame$next  = 1'h0;
+    endcase
+  end
+  assign \$1  = \$2 ;
+  assign \$6  = \$7 ;
+  assign \$9  = \$10 ;
+  assign \$14  = \$15 ;
+endmodule
+
+(* generator = "nMigen" *)
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(valid_out, end_out, data_out, busy_in, pixel_in, nready, s_axi_aclk, s_axi_areset_n, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_ri__araddr, s_axi_ri__arprot, s_axi_ri__arvalid, s_axi_ri__rready, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid, s_axi_wi__awaddr
+, s_axi_wi__awprot, s_axi_wi__awvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__wvalid, s_axi_wi__bready, full_clk, full_rst, valid_in);
+  (* src = "micro_integration.py:71" *)
+  wire \$1 ;
+  (* src = "micro_integration.py:133" *)
+  wire \$11 ;
+  (* src = "micro_integration.py:71" *)
+  wire \$3 ;
+  (* src = "micro_integration.py:71" *)
+  wire \$5 ;
+  (* src = "micro_integration.py:78" *)
+  wire \$7 ;
+  (* src = "micro_integration.py:133" *)
+  wire \$9 ;
   (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
   (* src = "auto_reset.py:37" *)
@@ -7466,20 +9786,21 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire auto_reset_reset_out;
   (* src = "micro_integration.py:42" *)
   input busy_in;
+  wire busy_in;
   (* src = "micro_integration.py:35" *)
   output [15:0] data_out;
-  (* src = "fix_0xff.py:81" *)
-  input end_in;
-  (* src = "fix_0xff2.py:159" *)
-  input \end_in$1 ;
+  wire [15:0] data_out;
   (* src = "micro_integration.py:40" *)
   output end_out;
+  wire end_out;
   (* src = "fix_0xff2.py:149" *)
   wire [31:0] fix_0xff2_data_in;
   (* src = "fix_0xff2.py:150" *)
   wire [2:0] fix_0xff2_data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   wire [15:0] fix_0xff2_data_out;
+  (* src = "fix_0xff2.py:159" *)
+  wire fix_0xff2_end_in;
   (* src = "fix_0xff2.py:160" *)
   wire fix_0xff2_end_out;
   (* src = "fix_0xff2.py:163" *)
@@ -7496,6 +9817,10 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire [31:0] fix_0xff_data_out;
   (* src = "fix_0xff.py:73" *)
   wire [2:0] fix_0xff_data_out_ctr;
+  (* src = "fix_0xff.py:81" *)
+  wire fix_0xff_end_in;
+  (* src = "fix_0xff.py:82" *)
+  wire fix_0xff_end_out;
   (* src = "fix_0xff.py:79" *)
   wire fix_0xff_i_busy;
   (* src = "fix_0xff.py:78" *)
@@ -7506,25 +9831,29 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire fix_0xff_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3.py:32" *)
+  wire full_rst;
+  (* src = "integration_3.py:33" *)
   wire integration_3_busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   wire integration_3_clk;
-  (* src = "integration_3.py:25" *)
+  (* src = "integration_3.py:26" *)
   wire [15:0] integration_3_data_out;
-  (* src = "integration_1.py:35" *)
-  wire integration_3_fend_out;
   (* src = "integration_3.py:31" *)
+  wire integration_3_end_out;
+  (* src = "integration_1.py:36" *)
+  wire integration_3_fend_out;
+  (* src = "integration_3.py:32" *)
   wire integration_3_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] integration_3_pixel_in;
   (* src = "clk_domains.py:5" *)
   wire integration_3_rst;
-  (* src = "integration_3.py:28" *)
-  wire integration_3_valid_in;
   (* src = "integration_3.py:29" *)
+  wire integration_3_valid_in;
+  (* src = "integration_3.py:30" *)
   wire integration_3_valid_out;
   (* src = "markers.py:35" *)
   wire [15:0] markers_data_in;
@@ -7538,40 +9867,93 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
   wire markers_force_end_in;
   (* src = "markers.py:49" *)
   wire markers_i_busy;
+  (* src = "markers.py:48" *)
+  wire markers_o_busy;
   (* src = "markers.py:41" *)
   wire markers_valid_in;
   (* src = "markers.py:42" *)
   wire markers_valid_out;
   (* src = "micro_integration.py:41" *)
   output nready;
+  wire nready;
   (* src = "micro_integration.py:32" *)
   input [11:0] pixel_in;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [11:0] pixel_in;
+  (* src = "core_axi_lite.py:70" *)
+  input s_axi_aclk;
+  wire s_axi_aclk;
+  (* src = "core_axi_lite.py:71" *)
+  input s_axi_areset_n;
+  wire s_axi_areset_n;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
+  input [2:0] s_axi_ri__arprot;
+  wire [2:0] s_axi_ri__arprot;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__arready;
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
+  output [31:0] s_axi_ro__rdata;
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
+  output [1:0] s_axi_ro__rresp;
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
+  output s_axi_ro__rvalid;
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
+  input [2:0] s_axi_wi__awprot;
+  wire [2:0] s_axi_wi__awprot;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__awready;
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
+  output [1:0] s_axi_wo__bresp;
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__bvalid;
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
+  output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "micro_integration.py:38" *)
   input valid_in;
+  wire valid_in;
   (* src = "micro_integration.py:39" *)
   output valid_out;
-  assign \$2  = auto_reset_reset_out == (* src = "micro_integration.py:68" *) 1'h1;
-  assign \$4  = full_rst == (* src = "micro_integration.py:68" *) 1'h1;
-  assign \$6  = \$2  | (* src = "micro_integration.py:68" *) \$4 ;
-  assign \$8  = busy_in == (* src = "micro_integration.py:75" *) 1'h0;
+  wire valid_out;
+  assign \$9  = auto_reset_reset_out == (* src = "micro_integration.py:133" *) 1'h0;
+  assign \$11  = markers_valid_out & (* src = "micro_integration.py:133" *) \$9 ;
+  assign \$1  = auto_reset_reset_out == (* src = "micro_integration.py:71" *) 1'h1;
+  assign \$3  = full_rst == (* src = "micro_integration.py:71" *) 1'h1;
+  assign \$5  = \$1  | (* src = "micro_integration.py:71" *) \$3 ;
+  assign \$7  = busy_in == (* src = "micro_integration.py:78" *) 1'h0;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -7585,7 +9967,8 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .data_in(fix_0xff_data_in),
     .data_out(fix_0xff_data_out),
     .data_out_ctr(fix_0xff_data_out_ctr),
-    .end_in(end_in),
+    .end_in(fix_0xff_end_in),
+    .end_out(fix_0xff_end_out),
     .i_busy(fix_0xff_i_busy),
     .o_busy(fix_0xff_o_busy),
     .rst(integration_3_rst),
@@ -7597,7 +9980,7 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .data_in(fix_0xff2_data_in),
     .data_in_ctr(fix_0xff2_data_in_ctr),
     .data_out(fix_0xff2_data_out),
-    .end_in(\end_in$1 ),
+    .end_in(fix_0xff2_end_in),
     .end_out(fix_0xff2_end_out),
     .i_busy(fix_0xff2_i_busy),
     .o_busy(fix_0xff2_o_busy),
@@ -7609,6 +9992,7 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .busy_in(integration_3_busy_in),
     .clk(integration_3_clk),
     .data_out(integration_3_data_out),
+    .end_out(integration_3_end_out),
     .fend_out(integration_3_fend_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
@@ -7618,12 +10002,20 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .s_axi_ri__araddr(s_axi_ri__araddr),
     .s_axi_ri__arvalid(s_axi_ri__arvalid),
     .s_axi_ri__rready(s_axi_ri__rready),
+    .s_axi_ro__arready(s_axi_ro__arready),
+    .s_axi_ro__rdata(s_axi_ro__rdata),
+    .s_axi_ro__rresp(s_axi_ro__rresp),
+    .s_axi_ro__rvalid(s_axi_ro__rvalid),
     .s_axi_wi__awaddr(s_axi_wi__awaddr),
     .s_axi_wi__awvalid(s_axi_wi__awvalid),
     .s_axi_wi__bready(s_axi_wi__bready),
     .s_axi_wi__wdata(s_axi_wi__wdata),
     .s_axi_wi__wstrb(s_axi_wi__wstrb),
     .s_axi_wi__wvalid(s_axi_wi__wvalid),
+    .s_axi_wo__awready(s_axi_wo__awready),
+    .s_axi_wo__bresp(s_axi_wo__bresp),
+    .s_axi_wo__bvalid(s_axi_wo__bvalid),
+    .s_axi_wo__wready(s_axi_wo__wready),
     .valid_in(integration_3_valid_in),
     .valid_out(integration_3_valid_out)
   );
@@ -7635,270 +10027,142 @@ module top(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__a
     .end_out(markers_end_out),
     .force_end_in(markers_force_end_in),
     .i_busy(markers_i_busy),
+    .o_busy(markers_o_busy),
     .rst(integration_3_rst),
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
   );
-  always @* begin
-    \$next\integration_3_clk  = 1'h0;
-    \$next\integration_3_clk  = full_clk;
-  end
-  always @* begin
-    \$next\integration_3_rst  = 1'h0;
-    \$next\integration_3_rst  = \$6 ;
-  end
-  always @* begin
-    \$next\fix_0xff_i_busy  = 1'h0;
-    \$next\fix_0xff_i_busy  = fix_0xff2_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in  = 32'd0;
-    \$next\fix_0xff2_data_in  = fix_0xff_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_valid_in  = 1'h0;
-    \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in_ctr  = 3'h0;
-    \$next\fix_0xff2_data_in_ctr  = fix_0xff_data_out_ctr;
-  end
-  always @* begin
-    \$next\markers_data_in  = 16'h0000;
-    \$next\markers_data_in  = fix_0xff2_data_out;
-  end
-  always @* begin
-    \$next\markers_valid_in  = 1'h0;
-    \$next\markers_valid_in  = fix_0xff2_valid_out;
-  end
-  always @* begin
-    \$next\markers_force_end_in  = 1'h0;
-    \$next\markers_force_end_in  = integration_3_fend_out;
-  end
-  always @* begin
-    \$next\markers_end_in  = 1'h0;
-    \$next\markers_end_in  = fix_0xff2_end_out;
-  end
-  always @* begin
-    \$next\markers_i_busy  = 1'h0;
-    \$next\markers_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\auto_reset_end_in  = 1'h0;
-    \$next\auto_reset_end_in  = end_out;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = markers_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = markers_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_3_nready;
-  end
-  always @* begin
-    \$next\auto_reset_hs1_in  = 1'h0;
-    \$next\auto_reset_hs1_in  = valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_hs2_in  = 1'h0;
-    \$next\auto_reset_hs2_in  = \$8 ;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in  = 12'h000;
-    \$next\integration_3_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_3_valid_in  = 1'h0;
-    \$next\integration_3_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_3_busy_in  = 1'h0;
-    \$next\integration_3_busy_in  = fix_0xff_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff_data_in  = 16'h0000;
-    \$next\fix_0xff_data_in  = integration_3_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff_valid_in  = 1'h0;
-    \$next\fix_0xff_valid_in  = integration_3_valid_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign markers_i_busy = \$next\markers_i_busy ;
-  assign markers_end_in = \$next\markers_end_in ;
-  assign markers_force_end_in = \$next\markers_force_end_in ;
-  assign markers_valid_in = \$next\markers_valid_in ;
-  assign markers_data_in = \$next\markers_data_in ;
-  assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
-  assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
-  assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
-  assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
-  assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
-  assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
-  assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
-  assign integration_3_busy_in = \$next\integration_3_busy_in ;
-  assign integration_3_valid_in = \$next\integration_3_valid_in ;
-  assign integration_3_pixel_in = \$next\integration_3_pixel_in ;
-  assign auto_reset_hs2_in = \$next\auto_reset_hs2_in ;
-  assign auto_reset_hs1_in = \$next\auto_reset_hs1_in ;
-  assign auto_reset_end_in = \$next\auto_reset_end_in ;
-  assign integration_3_rst = \$next\integration_3_rst ;
-  assign integration_3_clk = \$next\integration_3_clk ;
+  assign nready = integration_3_nready;
+  assign end_out = markers_end_out;
+  assign valid_out = \$11 ;
+  assign data_out = markers_data_out;
+  assign markers_i_busy = busy_in;
+  assign markers_end_in = fix_0xff2_end_out;
+  assign markers_force_end_in = integration_3_fend_out;
+  assign markers_valid_in = fix_0xff2_valid_out;
+  assign markers_data_in = fix_0xff2_data_out;
+  assign fix_0xff2_data_in_ctr = fix_0xff_data_out_ctr;
+  assign fix_0xff2_i_busy = markers_o_busy;
+  assign fix_0xff2_end_in = fix_0xff_end_out;
+  assign fix_0xff2_valid_in = fix_0xff_valid_out;
+  assign fix_0xff2_data_in = fix_0xff_data_out;
+  assign fix_0xff_i_busy = fix_0xff2_o_busy;
+  assign fix_0xff_end_in = integration_3_end_out;
+  assign fix_0xff_valid_in = integration_3_valid_out;
+  assign fix_0xff_data_in = integration_3_data_out;
+  assign integration_3_busy_in = fix_0xff_o_busy;
+  assign integration_3_valid_in = valid_in;
+  assign integration_3_pixel_in = pixel_in;
+  assign auto_reset_hs2_in = \$7 ;
+  assign auto_reset_hs1_in = valid_out;
+  assign auto_reset_end_in = end_out;
+  assign integration_3_rst = \$5 ;
+  assign integration_3_clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [33:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [33:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [33:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [33:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [33:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [33:0] r_data;
+  wire [33:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [33:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [33:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [33:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [33:0] w_data;
+  wire [33:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [33:0] storage [510:0];
   initial begin
     storage[0] = 34'h000000000;
@@ -8413,238 +10677,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[509] = 34'h000000000;
     storage[510] = 34'h000000000;
   end
-  reg [33:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
+  reg [33:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 34'h000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 34'h000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$3 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$3 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [10:0] \$23 ;
-  wire [10:0] \$24 ;
-  wire [10:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [10:0] \$32 ;
-  wire [10:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [10:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [10:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [10:0] \$51 ;
-  wire [10:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [10:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [10:0] \$66 ;
-  wire [10:0] \$67 ;
-  wire [10:0] \$7 ;
-  wire [10:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [9:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [19:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [9:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [9:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [9:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [19:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [10:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [10:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 10'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [9:0] consume = 10'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [19:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [19:0] dout;
-  (* init = 10'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [9:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [9:0] level;
   reg [9:0] level = 10'h000;
-  (* init = 10'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [9:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [9:0] produce = 10'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [9:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [19:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [9:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [19:0] r_data;
+  wire [19:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [9:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [19:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 11'h3fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 10'h3fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 11'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 10'h3ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 10'h3fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 11'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [9:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [19:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [9:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [19:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [19:0] w_data;
+  wire [19:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [19:0] storage [1022:0];
   initial begin
     storage[0] = 20'h00000;
@@ -9671,145 +11909,133 @@ module \unbuffered$3 (we, replace, re, rst, clk, writable, readable, dout, level
     storage[1021] = 20'h00000;
     storage[1022] = 20'h00000;
   end
-  reg [19:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
+  reg [19:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 10'h3fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 11'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 10'h3fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 11'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 10'h3ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [9:0];
+          \level$next  = \$35 [9:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [9:0];
+          \level$next  = \$46 [9:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 10'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 10'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [9:0];
+          \level$next  = 10'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 20'h00000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [9:0];
+          \produce$next  = \$13 [9:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 10'h000;
+          \produce$next  = 10'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 10'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 20'h00000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [9:0];
+          \consume$next  = \$22 [9:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 10'h000;
+          \consume$next  = 10'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [14:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [3:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [5:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [5:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [40:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.integration_3.vbits_to_cbits" *)
+module vbits_to_cbits(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, clk);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [14:0] enc_in;
+  wire [14:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [3:0] enc_in_ctr;
+  wire [3:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [5:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -9832,6 +12058,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [5:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -9852,10 +12079,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -9882,75 +12112,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 15'h0000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 4'h0;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 41'h00000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 6'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 6'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/micro_integration_axistream.v b/verilog_src/micro_integration_axistream.v
index 858088f..fc1063e 100644
--- a/verilog_src/micro_integration_axistream.v
+++ b/verilog_src/micro_integration_axistream.v
@@ -1,92 +1,143 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize.U$$0" *)
+module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$129  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$11 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$15 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$17 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$18 ;
+  (* src = "normalize.py:81" *)
   wire \$20 ;
+  (* src = "normalize.py:65" *)
   wire \$22 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$24 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$25 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$27 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$28 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$30 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$31 ;
+  (* src = "normalize.py:81" *)
   wire \$33 ;
+  (* src = "normalize.py:81" *)
   wire \$35 ;
+  (* src = "normalize.py:65" *)
   wire \$37 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$39 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$42 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$43 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$45 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$46 ;
+  (* src = "normalize.py:81" *)
   wire \$48 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:65" *)
   wire \$50 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$52 ;
+  (* src = "normalize.py:67" *)
   wire [13:0] \$53 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$55 ;
+  (* src = "normalize.py:72" *)
   wire [13:0] \$56 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$58 ;
+  (* src = "normalize.py:58" *)
   wire [13:0] \$59 ;
+  (* src = "normalize.py:156" *)
   wire \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:81" *)
   wire \$65 ;
+  (* src = "normalize.py:81" *)
   wire \$67 ;
+  (* src = "normalize.py:65" *)
   wire \$69 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:81" *)
   wire \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:81" *)
   wire \$75 ;
+  (* src = "normalize.py:81" *)
   wire \$77 ;
+  (* src = "normalize.py:65" *)
   wire \$79 ;
+  (* src = "normalize.py:81" *)
   wire \$81 ;
+  (* src = "normalize.py:65" *)
   wire \$83 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [11:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [12:0] val_in;
+  wire [12:0] val_in;
   (* src = "normalize.py:121" *)
   input [12:0] val_in_mns;
-  (* init = 12'h000 *)
+  wire [12:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [11:0] val_out;
   reg [11:0] val_out = 12'h000;
+  (* src = "normalize.py:124" *)
+  reg [11:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[12:1] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$12  = val_in + (* src = "normalize.py:67" *) 1'h1;
   assign \$15  = val_in + (* src = "normalize.py:72" *) 2'h3;
@@ -124,197 +175,292 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$81  = val_in_mns[12:11] == (* src = "normalize.py:81" *) 2'h3;
   assign \$83  = val_in_mns[12:10] == (* src = "normalize.py:65" *) 3'h7;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [11:0];
+                                        \val_out$next  = \$12 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$17 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$18 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$20 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$22 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$24 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$27 [11:0];
+                                        \val_out$next  = \$25 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$28 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$30 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$31 [11:0];
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$33 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$35 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$37 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$39 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$42 [11:0];
+                                        \val_out$next  = \$40 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$43 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$45 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$46 [11:0];
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$48 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$50 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$52 [11:0];
-                                    1'hz:
-                                        \$next\val_out  = \$55 [11:0];
+                                        \val_out$next  = \$53 [11:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$56 [11:0];
                                   endcase
-                              1'hz:
-                                  \$next\val_out  = \$58 [11:0];
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \val_out$next  = \$59 [11:0];
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[11:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[11:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 12'h000;
+          \val_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$61 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$63 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$65 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$67 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$69 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h03;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h03;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$71 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h04;
-                                    1'hz:
-                                        \$next\ssss  = 5'h05;
+                                        \ssss$next  = 5'h04;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h05;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h06;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h06;
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$75 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$77 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$79 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h09;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h09;
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$81 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$83 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0a;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0b;
+                                        \ssss$next  = 5'h0a;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0b;
                                   endcase
-                              1'hz:
-                                  \$next\ssss  = 5'h0c;
+                              /* src = "normalize.py:83" */
+                              default:
+                                  \ssss$next  = 5'h0c;
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11] })
-                  12'bzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h0c;
-                  12'bzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0b;
-                  12'bzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0a;
-                  12'bzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h09;
-                  12'bzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h08;
-                  12'bzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h07;
-                  12'bzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h06;
-                  12'bzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  12'bzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  12'bzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  12'bz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  12'b1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  12'b???????????1:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  12'b??????????1?:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  12'b?????????1??:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  12'b????????1???:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  12'b???????1????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  12'b??????1?????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  12'b?????1??????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  12'b????1???????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  12'b???1????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  12'b??1?????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  12'b?1??????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  12'b1???????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$129 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -331,328 +477,381 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$58  = \$59 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.anonymous" *)
 (* generator = "nMigen" *)
-module \anonymous$1 (end_in, ssss, val_in, rp_data, rst, clk, valid_out, end_out, rp_addr, enc_out, enc_ctr, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode.U$$0" *)
+module \U$$0$1 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out, enc_ctr, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$130  = 0;
+  (* src = "encode.py:156" *)
   wire [32:0] \$1 ;
+  (* src = "encode.py:156" *)
   wire [32:0] \$2 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$4 ;
+  (* src = "encode.py:157" *)
   wire [5:0] \$5 ;
-  (* src = "encode.py:99" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:97" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "encode.py:123" *)
-  reg \$next\end_late ;
-  (* src = "encode.py:107" *)
-  reg \$next\end_out ;
-  (* src = "encode.py:88" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "encode.py:128" *)
-  reg [4:0] \$next\ssss_late ;
-  (* src = "encode.py:130" *)
-  reg [11:0] \$next\val_in_late ;
-  (* src = "encode.py:118" *)
-  reg \$next\valid_late ;
-  (* src = "encode.py:103" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 5'h00 *)
+  wire clk;
   (* src = "encode.py:99" *)
   output [4:0] enc_ctr;
   reg [4:0] enc_ctr = 5'h00;
-  (* init = 28'h0000000 *)
+  (* src = "encode.py:99" *)
+  reg [4:0] \enc_ctr$next ;
   (* src = "encode.py:97" *)
   output [27:0] enc_out;
   reg [27:0] enc_out = 28'h0000000;
+  (* src = "encode.py:97" *)
+  reg [27:0] \enc_out$next ;
   (* src = "encode.py:106" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "encode.py:123" *)
   reg end_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:123" *)
+  reg \end_late$next ;
   (* src = "encode.py:107" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "encode.py:107" *)
+  reg \end_out$next ;
   (* src = "encode.py:88" *)
   output [4:0] rp_addr;
+  wire [4:0] rp_addr;
   (* src = "encode.py:89" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:94" *)
   input [4:0] ssss;
-  (* init = 5'h00 *)
+  wire [4:0] ssss;
   (* src = "encode.py:128" *)
   reg [4:0] ssss_late = 5'h00;
+  (* src = "encode.py:128" *)
+  reg [4:0] \ssss_late$next ;
   (* src = "encode.py:92" *)
   input [11:0] val_in;
-  (* init = 12'h000 *)
+  wire [11:0] val_in;
   (* src = "encode.py:130" *)
   reg [11:0] val_in_late = 12'h000;
+  (* src = "encode.py:130" *)
+  reg [11:0] \val_in_late$next ;
   (* src = "encode.py:102" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "encode.py:118" *)
   reg valid_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "encode.py:118" *)
+  reg \valid_late$next ;
   (* src = "encode.py:103" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "encode.py:103" *)
+  reg \valid_out$next ;
   assign \$2  = rp_data | (* src = "encode.py:156" *) val_in_late;
   assign \$5  = rp_data[32:28] + (* src = "encode.py:157" *) ssss_late[3:0];
   always @(posedge clk)
-      ssss_late <= \$next\ssss_late ;
+    ssss_late <= \ssss_late$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      end_late <= \$next\end_late ;
+    end_late <= \end_late$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      valid_late <= \$next\valid_late ;
+    valid_late <= \valid_late$next ;
   always @(posedge clk)
-      enc_ctr <= \$next\enc_ctr ;
+    enc_ctr <= \enc_ctr$next ;
   always @(posedge clk)
-      enc_out <= \$next\enc_out ;
+    enc_out <= \enc_out$next ;
   always @(posedge clk)
-      val_in_late <= \$next\val_in_late ;
+    val_in_late <= \val_in_late$next ;
   always @* begin
-    \$next\valid_late  = valid_late;
-    \$next\valid_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \valid_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_late  = 1'h0;
+          \valid_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \valid_out$next  = valid_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_late  = end_late;
-    \$next\end_late  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \end_late$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_late  = 1'h0;
+          \end_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_late;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \end_out$next  = end_late;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_late  = ssss_late;
-    \$next\ssss_late  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \ssss_late$next  = ssss;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss_late  = 5'h00;
+          \ssss_late$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\val_in_late  = val_in_late;
-    \$next\val_in_late  = val_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \val_in_late$next  = val_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_in_late  = 12'h000;
+          \val_in_late$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = 5'h00;
-    \$next\rp_addr  = ssss;
-  end
-  always @* begin
-    \$next\enc_out  = enc_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \enc_out$next  = enc_out;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_out  = \$1 [27:0];
+          \enc_out$next  = \$2 [27:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out  = 28'h0000000;
+          \enc_out$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_ctr  = enc_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$130 ) begin end
+    \enc_ctr$next  = enc_ctr;
+    (* src = "encode.py:141" *)
     casez (valid_late)
+      /* src = "encode.py:141" */
       1'h1:
-          \$next\enc_ctr  = \$4 [4:0];
+          \enc_ctr$next  = \$5 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_ctr  = 5'h00;
+          \enc_ctr$next  = 5'h00;
     endcase
   end
   assign \$1  = \$2 ;
   assign \$4  = \$5 ;
-  assign rp_addr = \$next\rp_addr ;
+  assign rp_addr = ssss;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.auto_reset" *)
 (* generator = "nMigen" *)
-module auto_reset(hs2_in, end_in, rst, clk, reset_out, hs1_in);
+(* \nmigen.hierarchy  = "top.top_module.auto_reset" *)
+module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$131  = 0;
+  (* src = "auto_reset.py:54" *)
   wire \$1 ;
+  (* src = "auto_reset.py:54" *)
   wire \$3 ;
+  (* src = "auto_reset.py:54" *)
   wire \$5 ;
+  (* src = "auto_reset.py:54" *)
   wire \$7 ;
+  (* src = "auto_reset.py:54" *)
   wire \$9 ;
-  (* src = "auto_reset.py:43" *)
-  reg \$next\reset_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "auto_reset.py:34" *)
   input end_in;
+  wire end_in;
   (* src = "auto_reset.py:37" *)
   input hs1_in;
+  wire hs1_in;
   (* src = "auto_reset.py:40" *)
   input hs2_in;
-  (* init = 1'h0 *)
+  wire hs2_in;
   (* src = "auto_reset.py:43" *)
   output reset_out;
   reg reset_out = 1'h0;
+  (* src = "auto_reset.py:43" *)
+  reg \reset_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   assign \$9  = \$5  & (* src = "auto_reset.py:54" *) \$7 ;
   assign \$1  = hs1_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$3  = hs2_in == (* src = "auto_reset.py:54" *) 1'h1;
   assign \$5  = \$1  & (* src = "auto_reset.py:54" *) \$3 ;
   assign \$7  = end_in == (* src = "auto_reset.py:54" *) 1'h1;
   always @(posedge clk)
-      reset_out <= \$next\reset_out ;
+    reset_out <= \reset_out$next ;
   always @* begin
-    \$next\reset_out  = reset_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$131 ) begin end
+    \reset_out$next  = reset_out;
+    (* src = "auto_reset.py:54" *)
     casez (\$9 )
+      /* src = "auto_reset.py:54" */
       1'h1:
-          \$next\reset_out  = 1'h1;
+          \reset_out$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\reset_out  = 1'h0;
+          \reset_out$next  = 1'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
 (* generator = "nMigen" *)
-module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, latch_output, enc_in, enc_in_ctr, in_end, close_full);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter" *)
+module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, enc_in, enc_in_ctr, in_end, valid_in, close_full, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$132  = 0;
+  (* src = "converter.py:158" *)
   wire \$1 ;
+  (* src = "converter.py:158" *)
   wire \$11 ;
+  (* src = "converter.py:113" *)
   wire \$13 ;
+  (* src = "converter.py:113" *)
   wire \$15 ;
+  (* src = "converter.py:121" *)
   wire \$17 ;
+  (* src = "converter.py:121" *)
   wire \$19 ;
+  (* src = "converter.py:113" *)
   wire \$21 ;
+  (* src = "converter.py:113" *)
   wire \$23 ;
+  (* src = "converter.py:121" *)
   wire \$25 ;
+  (* src = "converter.py:121" *)
   wire \$27 ;
+  (* src = "converter.py:158" *)
   wire \$29 ;
+  (* src = "converter.py:113" *)
   wire \$3 ;
+  (* src = "converter.py:192" *)
   wire \$31 ;
+  (* src = "converter.py:113" *)
   wire \$33 ;
+  (* src = "converter.py:113" *)
   wire \$35 ;
+  (* src = "converter.py:121" *)
   wire \$37 ;
+  (* src = "converter.py:121" *)
   wire \$39 ;
+  (* src = "converter.py:158" *)
   wire \$41 ;
+  (* src = "converter.py:192" *)
   wire \$43 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [14:0] \$45 ;
+  (* src = "converter.py:158" *)
   wire \$47 ;
+  (* src = "converter.py:192" *)
   wire \$49 ;
+  (* src = "converter.py:113" *)
   wire \$5 ;
+  (* src = "converter.py:195" *)
   wire [5:0] \$51 ;
+  (* src = "converter.py:195" *)
   wire [5:0] \$52 ;
+  (* src = "converter.py:158" *)
   wire \$54 ;
+  (* src = "converter.py:158" *)
   wire \$56 ;
+  (* src = "converter.py:158" *)
   wire \$58 ;
+  (* src = "converter.py:121" *)
   wire \$7 ;
+  (* src = "converter.py:121" *)
   wire \$9 ;
-  (* src = "converter.py:66" *)
-  reg [14:0] \$next\enc_in ;
-  (* src = "converter.py:67" *)
-  reg [3:0] \$next\enc_in_ctr ;
-  (* src = "converter.py:95" *)
-  reg [4:0] \$next\enc_out_ctr_reg ;
-  (* src = "converter.py:90" *)
-  reg [14:0] \$next\enc_out_latch ;
-  (* src = "converter.py:94" *)
-  reg [27:0] \$next\enc_out_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "converter.py:68" *)
-  reg \$next\in_end ;
-  (* src = "converter.py:59" *)
-  reg \$next\latch_output ;
-  (* src = "converter.py:91" *)
-  reg \$next\out_end_latch ;
-  (* src = "converter.py:96" *)
-  reg \$next\out_end_reg ;
-  (* src = "converter.py:69" *)
-  reg \$next\valid_in ;
-  (* src = "converter.py:97" *)
-  reg \$next\valid_out_reg ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   input close_full;
-  (* init = 15'h0000 *)
+  wire close_full;
   (* src = "converter.py:66" *)
   output [14:0] enc_in;
   reg [14:0] enc_in = 15'h0000;
-  (* init = 4'h0 *)
+  (* src = "converter.py:66" *)
+  reg [14:0] \enc_in$next ;
   (* src = "converter.py:67" *)
   output [3:0] enc_in_ctr;
   reg [3:0] enc_in_ctr = 4'h0;
+  (* src = "converter.py:67" *)
+  reg [3:0] \enc_in_ctr$next ;
   (* src = "converter.py:60" *)
   input [27:0] enc_out;
+  wire [27:0] enc_out;
   (* src = "converter.py:61" *)
   input [4:0] enc_out_ctr;
-  (* init = 5'h00 *)
+  wire [4:0] enc_out_ctr;
   (* src = "converter.py:95" *)
   reg [4:0] enc_out_ctr_reg = 5'h00;
-  (* init = 15'h0000 *)
+  (* src = "converter.py:95" *)
+  reg [4:0] \enc_out_ctr_reg$next ;
   (* src = "converter.py:90" *)
   reg [14:0] enc_out_latch = 15'h0000;
-  (* init = 28'h0000000 *)
+  (* src = "converter.py:90" *)
+  reg [14:0] \enc_out_latch$next ;
   (* src = "converter.py:94" *)
   reg [27:0] enc_out_reg = 28'h0000000;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "converter.py:94" *)
+  reg [27:0] \enc_out_reg$next ;
+  (* src = "converter.py:134" *)
   reg [1:0] fsm_state = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:134" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "converter.py:68" *)
   output in_end;
   reg in_end = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:68" *)
+  reg \in_end$next ;
   (* src = "converter.py:59" *)
   output latch_output;
   reg latch_output = 1'h0;
+  (* src = "converter.py:59" *)
+  reg \latch_output$next ;
   (* src = "converter.py:62" *)
   input out_end;
-  (* init = 1'h0 *)
+  wire out_end;
   (* src = "converter.py:91" *)
   reg out_end_latch = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "converter.py:91" *)
+  reg \out_end_latch$next ;
   (* src = "converter.py:96" *)
   reg out_end_reg = 1'h0;
+  (* src = "converter.py:96" *)
+  reg \out_end_reg$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "converter.py:69" *)
   output valid_in;
   reg valid_in = 1'h0;
+  (* src = "converter.py:69" *)
+  reg \valid_in$next ;
   (* src = "converter.py:63" *)
   input valid_out;
-  (* init = 1'h0 *)
+  wire valid_out;
   (* src = "converter.py:97" *)
   reg valid_out_reg = 1'h0;
+  (* src = "converter.py:97" *)
+  reg \valid_out_reg$next ;
   assign \$9  = valid_out & (* src = "converter.py:121" *) \$7 ;
   assign \$11  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 4'hf;
   assign \$13  = close_full == (* src = "converter.py:113" *) 1'h0;
@@ -673,7 +872,7 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 4'hf;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 5'h1c;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:123" *) enc_out_reg[27:15];
+  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[27:15];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 4'hf;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 5'h1c;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 4'hf;
@@ -683,1290 +882,2226 @@ module converter(valid_out, enc_out, enc_out_ctr, out_end, rst, clk, valid_in, l
   assign \$5  = valid_out_reg & (* src = "converter.py:113" *) \$3 ;
   assign \$7  = close_full == (* src = "converter.py:121" *) 1'h0;
   always @(posedge clk)
-      out_end_latch <= \$next\out_end_latch ;
+    out_end_latch <= \out_end_latch$next ;
   always @(posedge clk)
-      enc_out_latch <= \$next\enc_out_latch ;
+    enc_out_latch <= \enc_out_latch$next ;
   always @(posedge clk)
-      in_end <= \$next\in_end ;
+    in_end <= \in_end$next ;
   always @(posedge clk)
-      enc_in_ctr <= \$next\enc_in_ctr ;
+    enc_in_ctr <= \enc_in_ctr$next ;
   always @(posedge clk)
-      enc_in <= \$next\enc_in ;
+    enc_in <= \enc_in$next ;
   always @(posedge clk)
-      valid_out_reg <= \$next\valid_out_reg ;
+    valid_out_reg <= \valid_out_reg$next ;
   always @(posedge clk)
-      out_end_reg <= \$next\out_end_reg ;
+    out_end_reg <= \out_end_reg$next ;
   always @(posedge clk)
-      enc_out_ctr_reg <= \$next\enc_out_ctr_reg ;
+    enc_out_ctr_reg <= \enc_out_ctr_reg$next ;
   always @(posedge clk)
-      enc_out_reg <= \$next\enc_out_reg ;
+    enc_out_reg <= \enc_out_reg$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      latch_output <= \$next\latch_output ;
+    latch_output <= \latch_output$next ;
   always @(posedge clk)
-      valid_in <= \$next\valid_in ;
+    valid_in <= \valid_in$next ;
   always @* begin
-    \$next\valid_in  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \valid_in$next  = valid_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$1 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\valid_in  = 1'h1;
-                  1'hz:
-                      \$next\valid_in  = 1'h1;
+                      \valid_in$next  = 1'h1;
+                  /* src = "converter.py:171" */
+                  default:
+                      \valid_in$next  = 1'h1;
                 endcase
-            1'hz:
-                \$next\valid_in  = 1'h0;
+            /* src = "converter.py:205" */
+            default:
+                \valid_in$next  = 1'h0;
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\valid_in  = 1'h1;
+          \valid_in$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in  = 1'h0;
+          \valid_in$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\latch_output  = latch_output;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \latch_output$next  = latch_output;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
         begin
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
+          (* src = "converter.py:113" *)
           casez ({ \$9 , \$5  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
         end
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$11 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\latch_output  = 1'h0;
+                            \latch_output$next  = 1'h0;
                       endcase
-                  1'hz:
-                      \$next\latch_output  = 1'h0;
+                  /* src = "converter.py:171" */
+                  default:
+                      \latch_output$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$19 , \$15  })
-            2'bz1:
-                \$next\latch_output  = 1'h1;
-            2'b1z:
-                \$next\latch_output  = 1'h1;
+            /* src = "converter.py:113" */
+            2'b?1:
+                \latch_output$next  = 1'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \latch_output$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_output  = 1'h0;
+          \latch_output$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_latch  = enc_out_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_out_latch$next  = enc_out_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$56 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\enc_out_latch  = enc_out_reg[14:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      \enc_out_latch$next  = enc_out_reg[14:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_latch  = 15'h0000;
+          \enc_out_latch$next  = 15'h0000;
     endcase
   end
   always @* begin
-    \$next\out_end_latch  = out_end_latch;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \out_end_latch$next  = out_end_latch;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$58 )
+                  /* src = "converter.py:158" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\out_end_latch  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \out_end_latch$next  = out_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_latch  = 1'h0;
+          \out_end_latch$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "converter.py:113" *)
           casez ({ \$27 , \$23  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
-          endcase
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
+          endcase
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\fsm_state  = 2'h1;
+          \fsm_state$next  = 2'h1;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$29 )
+                  /* src = "converter.py:158" */
                   1'h1:
+                      (* src = "converter.py:165" *)
                       casez (close_full)
+                        /* src = "converter.py:165" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
-                  1'hz:
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$31 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\fsm_state  = 2'h3;
+                            \fsm_state$next  = 2'h3;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
+          (* src = "converter.py:113" *)
           casez ({ \$39 , \$35  })
-            2'bz1:
-                \$next\fsm_state  = 2'h1;
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h0;
-          endcase
-    endcase
+            /* src = "converter.py:113" */
+            2'b?1:
+                \fsm_state$next  = 2'h1;
+            /* src = "converter.py:121" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "converter.py:129" */
+            default:
+                \fsm_state$next  = 2'h0;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\enc_out_reg  = enc_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_out_reg$next  = enc_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_reg  = enc_out;
+          \enc_out_reg$next  = enc_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_reg  = 28'h0000000;
+          \enc_out_reg$next  = 28'h0000000;
     endcase
   end
   always @* begin
-    \$next\enc_out_ctr_reg  = enc_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_out_ctr_reg$next  = enc_out_ctr_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\enc_out_ctr_reg  = enc_out_ctr;
+          \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_out_ctr_reg  = 5'h00;
+          \enc_out_ctr_reg$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\out_end_reg  = out_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \out_end_reg$next  = out_end_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\out_end_reg  = out_end;
+          \out_end_reg$next  = out_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\out_end_reg  = 1'h0;
+          \out_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out_reg  = valid_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \valid_out_reg$next  = valid_out_reg;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
       2'h2:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
-          \$next\valid_out_reg  = valid_out;
+          \valid_out_reg$next  = valid_out;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out_reg  = 1'h0;
+          \valid_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in  = enc_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_in$next  = enc_in;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$41 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in  = enc_out_reg[14:0];
-                  1'hz:
+                      \enc_in$next  = enc_out_reg[14:0];
+                  /* src = "converter.py:171" */
+                  default:
+                      (* src = "converter.py:192" *)
                       casez (\$43 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in  = \$45 ;
+                            \enc_in$next  = \$45 ;
                       endcase
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in  = enc_out_latch;
+          \enc_in$next  = enc_out_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in  = 15'h0000;
+          \enc_in$next  = 15'h0000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr  = enc_in_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \enc_in_ctr$next  = enc_in_ctr;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$47 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\enc_in_ctr  = enc_out_ctr_reg[3:0];
-                  1'hz:
+                      \enc_in_ctr$next  = enc_out_ctr_reg[3:0];
+                  /* src = "converter.py:171" */
+                  default:
                     begin
-                      \$next\enc_in_ctr  = 4'hf;
+                      \enc_in_ctr$next  = 4'hf;
+                      (* src = "converter.py:192" *)
                       casez (\$49 )
+                        /* src = "converter.py:192" */
                         1'h1:
-                            \$next\enc_in_ctr  = \$51 [3:0];
+                            \enc_in_ctr$next  = \$52 [3:0];
                       endcase
                     end
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\enc_in_ctr  = 4'hf;
+          \enc_in_ctr$next  = 4'hf;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr  = 4'h0;
+          \enc_in_ctr$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\in_end  = in_end;
+    if (\$auto$verilog_backend.cc:2184:dump_module$132 ) begin end
+    \in_end$next  = in_end;
+    (* src = "converter.py:134" *)
     casez (fsm_state)
+      /* src = "converter.py:136" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "converter.py:146" */
+      /* \nmigen.decoding  = "BURST_PREPARE/2" */
+      2'h2:
+          /* empty */;
+      /* src = "converter.py:154" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "converter.py:156" *)
           casez (valid_out_reg)
+            /* src = "converter.py:156" */
             1'h1:
+                (* src = "converter.py:158" *)
                 casez (\$54 )
+                  /* src = "converter.py:158" */
                   1'h1:
-                      \$next\in_end  = out_end_reg;
-                  1'hz:
-                      \$next\in_end  = 1'h0;
+                      \in_end$next  = out_end_reg;
+                  /* src = "converter.py:171" */
+                  default:
+                      \in_end$next  = 1'h0;
                 endcase
           endcase
+      /* src = "converter.py:215" */
+      /* \nmigen.decoding  = "STEPS_0/3" */
       2'h3:
-          \$next\in_end  = out_end_latch;
+          \in_end$next  = out_end_latch;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end  = 1'h0;
+          \in_end$next  = 1'h0;
     endcase
   end
   assign \$51  = \$52 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
 (* generator = "nMigen" *)
-module converter_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo" *)
+module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc_out, enc_out_ctr, valid_out, out_end, latch_output, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$133  = 0;
+  (* src = "converter_fifo.py:100" *)
   wire \$1 ;
-  (* src = "converter_fifo.py:61" *)
-  reg \$next\close_full ;
-  (* src = "converter_fifo.py:65" *)
-  reg [14:0] \$next\enc_out ;
-  (* src = "converter_fifo.py:66" *)
-  reg [3:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [19:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "converter_fifo.py:67" *)
-  reg \$next\out_end ;
-  (* src = "converter_fifo.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "converter_fifo.py:60" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "converter_fifo.py:61" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "converter_fifo.py:61" *)
+  reg \close_full$next ;
   (* src = "converter_fifo.py:56" *)
   input [14:0] enc_in;
+  wire [14:0] enc_in;
   (* src = "converter_fifo.py:57" *)
   input [3:0] enc_in_ctr;
+  wire [3:0] enc_in_ctr;
   (* src = "converter_fifo.py:65" *)
   output [14:0] enc_out;
+  wire [14:0] enc_out;
   (* src = "converter_fifo.py:66" *)
   output [3:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [19:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [19:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [3:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [10:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire fifo_writable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [19:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [19:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
+  wire in_end;
   (* src = "converter_fifo.py:64" *)
   input latch_output;
+  wire latch_output;
   (* src = "converter_fifo.py:67" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "converter_fifo.py:59" *)
   input valid_in;
+  wire valid_in;
   (* src = "converter_fifo.py:68" *)
   output valid_out;
+  wire valid_out;
   (* src = "converter_fifo.py:60" *)
   wire writable;
   assign \$1  = fifo_level >= (* src = "converter_fifo.py:100" *) 10'h3fb;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   \fifo$2  fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we),
-    .writable(fifo_writable)
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en),
+    .w_rdy(fifo_w_rdy)
   );
   always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 20'h00000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = fifo_writable;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 15'h0000;
-    \$next\enc_out  = fifo_dout[14:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 4'h0;
-    \$next\enc_out_ctr  = fifo_dout[18:15];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[19];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
-  always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$133 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign writable = \$next\writable ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[19];
+  assign enc_out_ctr = fifo_r_data[18:15];
+  assign enc_out = fifo_r_data[14:0];
+  assign valid_out = fifo_r_rdy;
+  assign writable = fifo_w_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.core_axi_lite" *)
 (* generator = "nMigen" *)
-module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, rst, full_clk, clk, rp_addr, wp_addr, wp_data, wp_en, allowed_cycles, height, width, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, rp_data);
-  wire [63:0] \$1 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.core_axi_lite" *)
+module core_axi_lite(full_clk, rst, full_rst, height, width, allowed_cycles, rp_data, rp_addr, wp_addr, wp_data, wp_en, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready
+, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$134  = 0;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$1 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$100 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$102 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$104 ;
+  (* src = "core_axi_lite.py:376" *)
   wire \$106 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$108 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$11 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$110 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$112 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$114 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$116 ;
+  (* src = "core_axi_lite.py:373" *)
   wire \$118 ;
-  wire [7:0] \$13 ;
-  wire [7:0] \$15 ;
-  wire [7:0] \$17 ;
-  wire [7:0] \$19 ;
-  wire [31:0] \$21 ;
-  wire [31:0] \$23 ;
-  wire [31:0] \$25 ;
-  wire [31:0] \$26 ;
-  wire [31:0] \$28 ;
-  wire [31:0] \$29 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$120 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$122 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$124 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$126 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$128 ;
+  (* src = "core_axi_lite.py:101" *)
+  wire [63:0] \$13 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$130 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$132 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$134 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$136 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$138 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$140 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$142 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$144 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$146 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$148 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$15 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$150 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$152 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$154 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$156 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$158 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$160 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$162 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$164 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$166 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$168 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$17 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$170 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$172 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$174 ;
+  (* src = "core_axi_lite.py:229" *)
+  wire \$176 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$19 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$21 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$23 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$25 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$27 ;
+  (* src = "core_axi_lite.py:251" *)
+  wire \$29 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$3 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$31 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$33 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$35 ;
-  wire \$37 ;
-  wire \$39 ;
-  wire \$41 ;
-  wire [31:0] \$43 ;
-  wire \$45 ;
+  (* src = "core_axi_lite.py:309" *)
+  wire [31:0] \$37 ;
+  (* src = "core_axi_lite.py:348" *)
+  wire [31:0] \$39 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$41 ;
+  (* src = "core_axi_lite.py:310" *)
+  wire [31:0] \$42 ;
+  (* src = "core_axi_lite.py:349" *)
+  wire [31:0] \$44 ;
+  (* src = "core_axi_lite.py:349" *)
+  wire [31:0] \$45 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$47 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$49 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$5 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$51 ;
+  (* src = "core_axi_lite.py:330" *)
   wire \$53 ;
+  (* src = "core_axi_lite.py:242" *)
   wire \$55 ;
+  (* src = "core_axi_lite.py:213" *)
   wire \$57 ;
-  wire \$59 ;
+  (* src = "core_axi_lite.py:84" *)
+  wire [31:0] \$59 ;
+  (* src = "core_axi_lite.py:327" *)
   wire \$61 ;
-  wire [5:0] \$63 ;
-  wire [5:0] \$64 ;
-  wire \$66 ;
-  wire \$68 ;
+  (* src = "core_axi_lite.py:327" *)
+  wire \$63 ;
+  (* src = "core_axi_lite.py:327" *)
+  wire \$65 ;
+  (* src = "core_axi_lite.py:330" *)
+  wire \$67 ;
+  (* src = "core_axi_lite.py:213" *)
+  wire \$69 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$7 ;
-  wire \$70 ;
-  wire \$72 ;
-  wire \$74 ;
-  wire \$76 ;
-  wire \$78 ;
-  wire \$80 ;
-  wire \$82 ;
-  wire \$84 ;
-  wire \$86 ;
-  wire \$88 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$71 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$73 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$75 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$77 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$79 ;
+  (* src = "core_axi_lite.py:366" *)
+  wire \$81 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$83 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$85 ;
+  (* src = "core_axi_lite.py:373" *)
+  wire \$87 ;
+  (* src = "core_axi_lite.py:376" *)
+  wire \$89 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$9 ;
-  wire \$90 ;
-  wire \$92 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$91 ;
+  (* src = "core_axi_lite.py:269" *)
+  wire [5:0] \$92 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$94 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$96 ;
+  (* src = "core_axi_lite.py:366" *)
   wire \$98 ;
   (* src = "core_axi_lite.py:162" *)
-  reg [31:0] \$next\addr_v ;
-  (* src = "core_axi_lite.py:84" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "core_axi_lite.py:164" *)
-  reg \$next\arready_v ;
-  (* src = "core_axi_lite.py:167" *)
-  reg \$next\awready_v ;
-  (* src = "core_axi_lite.py:174" *)
-  reg [1:0] \$next\bresp_v ;
-  (* src = "core_axi_lite.py:169" *)
-  reg \$next\bvalid_v ;
-  (* src = "core_axi_lite.py:188" *)
-  reg \$next\debug_enable ;
-  (* src = "core_axi_lite.py:190" *)
-  reg [2:0] \$next\debug_index ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [3:0] \$next\fsm_state ;
-  (* src = "core_axi_lite.py:80" *)
-  reg [15:0] \$next\height ;
-  (* src = "core_axi_lite.py:111" *)
-  reg [31:0] \$next\height_width ;
-  (* src = "core_axi_lite.py:187" *)
-  reg \$next\hw_enable ;
-  (* src = "core_axi_lite.py:191" *)
-  reg \$next\hw_index ;
-  (* src = "core_axi_lite.py:171" *)
-  reg [31:0] \$next\rdata_v ;
-  (* src = "core_axi_lite.py:100" *)
-  reg [4:0] \$next\rp_addr ;
-  (* src = "core_axi_lite.py:207" *)
-  reg [63:0] \$next\rp_data64 ;
-  (* src = "core_axi_lite.py:206" *)
-  reg [63:0] \$next\rp_data64_in ;
-  (* src = "core_axi_lite.py:172" *)
-  reg [1:0] \$next\rresp_v ;
-  (* src = "core_axi_lite.py:165" *)
-  reg \$next\rvalid_v ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__arready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [31:0] \$next\s_axi_ro__rdata ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_ro__rresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_ro__rvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__awready ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg [1:0] \$next\s_axi_wo__bresp ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__bvalid ;
-  (* src = "nmigen/hdl/rec.py:84" *)
-  reg \$next\s_axi_wo__wready ;
-  (* src = "core_axi_lite.py:186" *)
-  reg \$next\ssss_enable ;
-  (* src = "core_axi_lite.py:189" *)
-  reg [5:0] \$next\ssss_index ;
-  (* src = "core_axi_lite.py:177" *)
-  reg [31:0] \$next\wdata_v ;
-  (* src = "core_axi_lite.py:81" *)
-  reg [15:0] \$next\width ;
-  (* src = "core_axi_lite.py:95" *)
-  reg [4:0] \$next\wp_addr ;
-  (* src = "core_axi_lite.py:96" *)
-  reg [32:0] \$next\wp_data ;
-  (* src = "core_axi_lite.py:97" *)
-  reg \$next\wp_en ;
-  (* src = "core_axi_lite.py:168" *)
-  reg \$next\wready_v ;
-  (* src = "core_axi_lite.py:178" *)
-  reg [3:0] \$next\wstrb_v ;
-  (* init = 32'd0 *)
-  (* src = "core_axi_lite.py:162" *)
   reg [31:0] addr_v = 32'd0;
-  (* init = 24'h000000 *)
+  (* src = "core_axi_lite.py:162" *)
+  reg [31:0] \addr_v$next ;
   (* src = "core_axi_lite.py:84" *)
   output [23:0] allowed_cycles;
   reg [23:0] allowed_cycles = 24'h000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:84" *)
+  reg [23:0] \allowed_cycles$next ;
   (* src = "core_axi_lite.py:164" *)
   reg arready_v = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:164" *)
+  reg \arready_v$next ;
   (* src = "core_axi_lite.py:167" *)
   reg awready_v = 1'h0;
-  (* init = 2'h0 *)
+  (* src = "core_axi_lite.py:167" *)
+  reg \awready_v$next ;
   (* src = "core_axi_lite.py:174" *)
   reg [1:0] bresp_v = 2'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:174" *)
+  reg [1:0] \bresp_v$next ;
   (* src = "core_axi_lite.py:169" *)
   reg bvalid_v = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "core_axi_lite.py:169" *)
+  reg \bvalid_v$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "core_axi_lite.py:188" *)
   wire debug_enable;
   (* src = "core_axi_lite.py:190" *)
   wire [2:0] debug_index;
-  (* init = 4'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "core_axi_lite.py:291" *)
   reg [3:0] fsm_state = 4'h0;
+  (* src = "core_axi_lite.py:291" *)
+  reg [3:0] \fsm_state$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "core_axi_lite.py:80" *)
   output [15:0] height;
-  (* init = 32'd0 *)
+  wire [15:0] height;
   (* src = "core_axi_lite.py:111" *)
   reg [31:0] height_width = 32'd0;
+  (* src = "core_axi_lite.py:111" *)
+  reg [31:0] \height_width$next ;
   (* src = "core_axi_lite.py:187" *)
   wire hw_enable;
   (* src = "core_axi_lite.py:191" *)
   wire hw_index;
-  (* init = 32'd0 *)
   (* src = "core_axi_lite.py:171" *)
   reg [31:0] rdata_v = 32'd0;
-  (* init = 5'h00 *)
+  (* src = "core_axi_lite.py:171" *)
+  reg [31:0] \rdata_v$next ;
   (* src = "core_axi_lite.py:100" *)
   output [4:0] rp_addr;
   reg [4:0] rp_addr = 5'h00;
+  (* src = "core_axi_lite.py:100" *)
+  reg [4:0] \rp_addr$next ;
   (* src = "core_axi_lite.py:101" *)
   input [32:0] rp_data;
+  wire [32:0] rp_data;
   (* src = "core_axi_lite.py:207" *)
   wire [63:0] rp_data64;
   (* src = "core_axi_lite.py:206" *)
-  wire [63:0] rp_data64_in;
-  (* init = 2'h0 *)
+  reg [63:0] rp_data64_in;
   (* src = "core_axi_lite.py:172" *)
   reg [1:0] rresp_v = 2'h0;
+  (* src = "core_axi_lite.py:172" *)
+  reg [1:0] \rresp_v$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "core_axi_lite.py:165" *)
   reg rvalid_v = 1'h0;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  (* src = "core_axi_lite.py:165" *)
+  reg \rvalid_v$next ;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
   output [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "core_axi_lite.py:186" *)
   wire ssss_enable;
   (* src = "core_axi_lite.py:189" *)
   wire [5:0] ssss_index;
   (* src = "core_axi_lite.py:177" *)
-  wire [31:0] wdata_v;
+  reg [31:0] wdata_v;
   (* src = "core_axi_lite.py:81" *)
   output [15:0] width;
-  (* init = 5'h00 *)
+  wire [15:0] width;
   (* src = "core_axi_lite.py:95" *)
   output [4:0] wp_addr;
   reg [4:0] wp_addr = 5'h00;
-  (* init = 33'h000000000 *)
+  (* src = "core_axi_lite.py:95" *)
+  reg [4:0] \wp_addr$next ;
   (* src = "core_axi_lite.py:96" *)
   output [32:0] wp_data;
   reg [32:0] wp_data = 33'h000000000;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:96" *)
+  reg [32:0] \wp_data$next ;
   (* src = "core_axi_lite.py:97" *)
   output wp_en;
   reg wp_en = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "core_axi_lite.py:97" *)
+  reg \wp_en$next ;
   (* src = "core_axi_lite.py:168" *)
   reg wready_v = 1'h0;
+  (* src = "core_axi_lite.py:168" *)
+  reg \wready_v$next ;
   (* src = "core_axi_lite.py:178" *)
-  wire [3:0] wstrb_v;
-  assign \$9  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$100  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$102  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$104  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$106  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$108  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$110  = \$106  & (* src = "core_axi_lite.py:372" *) \$108 ;
-  assign \$112  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$114  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$116  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$118  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
-  assign \$11  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
-  assign \$13  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$15  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$17  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$1  = + (* src = "core_axi_lite.py:101" *) rp_data;
-  assign \$19  = + (* src = "nmigen/hdl/ast.py:123" *) "";
-  assign \$21  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
-  assign \$23  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
-  assign \$26  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
-  assign \$29  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
-  assign \$31  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
-  assign \$33  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
-  assign \$35  = \$31  & (* src = "core_axi_lite.py:327" *) \$33 ;
-  assign \$37  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
-  assign \$3  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$39  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
-  assign \$41  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$43  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
-  assign \$45  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
-  assign \$47  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
-  assign \$49  = \$45  & (* src = "core_axi_lite.py:327" *) \$47 ;
-  assign \$51  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
-  assign \$53  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
-  assign \$55  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$57  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$5  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$59  = \$55  & (* src = "core_axi_lite.py:372" *) \$57 ;
-  assign \$61  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$64  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
-  assign \$66  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$68  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$70  = \$66  & (* src = "core_axi_lite.py:372" *) \$68 ;
-  assign \$72  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$74  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$76  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$78  = \$74  & (* src = "core_axi_lite.py:372" *) \$76 ;
-  assign \$7  = \$3  & (* src = "core_axi_lite.py:372" *) \$5 ;
-  assign \$80  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$82  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$84  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$86  = \$82  & (* src = "core_axi_lite.py:372" *) \$84 ;
-  assign \$88  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$90  = ssss_enable == (* src = "core_axi_lite.py:372" *) 1'h1;
-  assign \$92  = ssss_index < (* src = "core_axi_lite.py:372" *) 5'h1a;
-  assign \$94  = \$90  & (* src = "core_axi_lite.py:372" *) \$92 ;
-  assign \$96  = hw_enable == (* src = "core_axi_lite.py:375" *) 1'h1;
-  assign \$98  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  reg [3:0] wstrb_v;
+  assign \$9  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$100  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$102  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$104  = \$100  & (* src = "core_axi_lite.py:373" *) \$102 ;
+  assign \$106  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$108  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$110  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$112  = \$108  & (* src = "core_axi_lite.py:366" *) \$110 ;
+  assign \$114  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$116  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$118  = \$114  & (* src = "core_axi_lite.py:373" *) \$116 ;
+  assign \$11  = \$7  & (* src = "core_axi_lite.py:366" *) \$9 ;
+  assign \$120  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$122  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$124  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$126  = \$122  & (* src = "core_axi_lite.py:366" *) \$124 ;
+  assign \$128  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$130  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$132  = \$128  & (* src = "core_axi_lite.py:373" *) \$130 ;
+  assign \$134  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$136  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$138  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$13  = + (* src = "core_axi_lite.py:101" *) rp_data;
+  assign \$140  = \$136  & (* src = "core_axi_lite.py:366" *) \$138 ;
+  assign \$142  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$144  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$146  = \$142  & (* src = "core_axi_lite.py:373" *) \$144 ;
+  assign \$148  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$150  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$152  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$154  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$156  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$158  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$15  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$160  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$162  = \$158  & (* src = "core_axi_lite.py:366" *) \$160 ;
+  assign \$164  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$166  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$168  = \$164  & (* src = "core_axi_lite.py:373" *) \$166 ;
+  assign \$170  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$172  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$174  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$176  = hw_index == (* src = "core_axi_lite.py:229" *) 1'h0;
+  assign \$17  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$1  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$19  = \$15  & (* src = "core_axi_lite.py:366" *) \$17 ;
+  assign \$21  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$23  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$25  = \$21  & (* src = "core_axi_lite.py:373" *) \$23 ;
+  assign \$27  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$29  = ssss_index[0] == (* src = "core_axi_lite.py:251" *) 1'h0;
+  assign \$31  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$33  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$35  = \$31  & (* src = "core_axi_lite.py:366" *) \$33 ;
+  assign \$37  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:309" *) 2'h2;
+  assign \$3  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$39  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:348" *) 2'h2;
+  assign \$42  = s_axi_ri__araddr >>> (* src = "core_axi_lite.py:310" *) 2'h3;
+  assign \$45  = s_axi_wi__awaddr >>> (* src = "core_axi_lite.py:349" *) 2'h3;
+  assign \$47  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
+  assign \$49  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
+  assign \$51  = \$47  & (* src = "core_axi_lite.py:327" *) \$49 ;
+  assign \$53  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
+  assign \$55  = ssss_index[0] == (* src = "core_axi_lite.py:242" *) 1'h0;
+  assign \$57  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$5  = \$1  & (* src = "core_axi_lite.py:366" *) \$3 ;
+  assign \$59  = + (* src = "core_axi_lite.py:84" *) allowed_cycles;
+  assign \$61  = ssss_enable == (* src = "core_axi_lite.py:327" *) 1'h1;
+  assign \$63  = ssss_index < (* src = "core_axi_lite.py:327" *) 5'h1a;
+  assign \$65  = \$61  & (* src = "core_axi_lite.py:327" *) \$63 ;
+  assign \$67  = hw_enable == (* src = "core_axi_lite.py:330" *) 1'h1;
+  assign \$69  = hw_index == (* src = "core_axi_lite.py:213" *) 1'h0;
+  assign \$71  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$73  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$75  = \$71  & (* src = "core_axi_lite.py:366" *) \$73 ;
+  assign \$77  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$7  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$79  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$81  = \$77  & (* src = "core_axi_lite.py:366" *) \$79 ;
+  assign \$83  = ssss_enable == (* src = "core_axi_lite.py:373" *) 1'h1;
+  assign \$85  = ssss_index < (* src = "core_axi_lite.py:373" *) 5'h1a;
+  assign \$87  = \$83  & (* src = "core_axi_lite.py:373" *) \$85 ;
+  assign \$89  = hw_enable == (* src = "core_axi_lite.py:376" *) 1'h1;
+  assign \$92  = ssss_index >>> (* src = "core_axi_lite.py:269" *) 1'h1;
+  assign \$94  = s_axi_wi__wvalid == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$96  = wready_v == (* src = "core_axi_lite.py:366" *) 1'h1;
+  assign \$98  = \$94  & (* src = "core_axi_lite.py:366" *) \$96 ;
   always @(posedge full_clk)
-      allowed_cycles <= \$next\allowed_cycles ;
+    allowed_cycles <= \allowed_cycles$next ;
   always @(posedge full_clk)
-      height_width <= \$next\height_width ;
+    height_width <= \height_width$next ;
   always @(posedge full_clk)
-      bresp_v <= \$next\bresp_v ;
+    bresp_v <= \bresp_v$next ;
   always @(posedge full_clk)
-      wp_en <= \$next\wp_en ;
+    wp_en <= \wp_en$next ;
   always @(posedge full_clk)
-      wp_data <= \$next\wp_data ;
+    wp_data <= \wp_data$next ;
   always @(posedge full_clk)
-      wp_addr <= \$next\wp_addr ;
+    wp_addr <= \wp_addr$next ;
   always @(posedge full_clk)
-      wready_v <= \$next\wready_v ;
+    wready_v <= \wready_v$next ;
   always @(posedge full_clk)
-      awready_v <= \$next\awready_v ;
+    awready_v <= \awready_v$next ;
   always @(posedge full_clk)
-      rresp_v <= \$next\rresp_v ;
+    rresp_v <= \rresp_v$next ;
   always @(posedge full_clk)
-      rdata_v <= \$next\rdata_v ;
+    rdata_v <= \rdata_v$next ;
   always @(posedge full_clk)
-      arready_v <= \$next\arready_v ;
+    arready_v <= \arready_v$next ;
   always @(posedge full_clk)
-      rp_addr <= \$next\rp_addr ;
+    rp_addr <= \rp_addr$next ;
   always @(posedge full_clk)
-      addr_v <= \$next\addr_v ;
+    addr_v <= \addr_v$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge full_clk)
-      bvalid_v <= \$next\bvalid_v ;
+    bvalid_v <= \bvalid_v$next ;
   always @(posedge full_clk)
-      rvalid_v <= \$next\rvalid_v ;
+    rvalid_v <= \rvalid_v$next ;
   always @* begin
-    \$next\wdata_v  = 32'd0;
-    \$next\wdata_v  = 32'd0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    wdata_v = 32'd0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$5 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wdata_v  = s_axi_wi__wdata;
+                wdata_v = s_axi_wi__wdata;
           endcase
     endcase
   end
   always @* begin
-    \$next\wstrb_v  = 4'h0;
-    \$next\wstrb_v  = 4'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    wstrb_v = 4'h0;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$11 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\wstrb_v  = s_axi_wi__wstrb;
+                wstrb_v = s_axi_wi__wstrb;
           endcase
     endcase
   end
   always @* begin
-    \$next\rvalid_v  = rvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rvalid_v$next  = rvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\rvalid_v  = 1'h1;
+                \rvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rvalid_v  = 1'h0;
+          \rvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bvalid_v  = bvalid_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \bvalid_v$next  = bvalid_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
+      4'h8:
+          /* empty */;
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\bvalid_v  = 1'h1;
+                \bvalid_v$next  = 1'h1;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bvalid_v  = 1'h0;
+          \bvalid_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
       4'h0:
+          (* src = "core_axi_lite.py:300" *)
           casez ({ s_axi_wi__awvalid, s_axi_ri__arvalid })
-            2'bz1:
-                \$next\fsm_state  = 4'h1;
-            2'b1z:
-                \$next\fsm_state  = 4'h2;
-          endcase
+            /* src = "core_axi_lite.py:300" */
+            2'b?1:
+                \fsm_state$next  = 4'h1;
+            /* src = "core_axi_lite.py:302" */
+            2'b1?:
+                \fsm_state$next  = 4'h2;
+          endcase
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\fsm_state  = 4'h3;
+          \fsm_state$next  = 4'h3;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\fsm_state  = 4'h4;
+          \fsm_state$next  = 4'h4;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
       4'h4:
-          \$next\fsm_state  = 4'h5;
+          \fsm_state$next  = 4'h5;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
+          (* src = "core_axi_lite.py:340" *)
           casez (s_axi_ri__rready)
+            /* src = "core_axi_lite.py:340" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\fsm_state  = 4'h6;
+          \fsm_state$next  = 4'h6;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\fsm_state  = 4'h7;
+          \fsm_state$next  = 4'h7;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
       4'h7:
-          \$next\fsm_state  = 4'h8;
+          \fsm_state$next  = 4'h8;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$35 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                \$next\fsm_state  = 4'h9;
+                \fsm_state$next  = 4'h9;
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
+          (* src = "core_axi_lite.py:394" *)
           casez (s_axi_wi__bready)
+            /* src = "core_axi_lite.py:394" */
             1'h1:
-                \$next\fsm_state  = 4'h0;
+                \fsm_state$next  = 4'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 4'h0;
+          \fsm_state$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\addr_v  = addr_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \addr_v$next  = addr_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\addr_v  = \$21 ;
+          \addr_v$next  = \$37 ;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\addr_v  = \$23 ;
+          \addr_v$next  = \$39 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\addr_v  = 32'd0;
+          \addr_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rp_addr  = rp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rp_addr$next  = rp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\rp_addr  = \$25 [4:0];
+          \rp_addr$next  = \$42 [4:0];
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\rp_addr  = \$28 [4:0];
+          \rp_addr$next  = \$45 [4:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rp_addr  = 5'h00;
+          \rp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\arready_v  = arready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \arready_v$next  = arready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
       4'h1:
-          \$next\arready_v  = 1'h1;
+          \arready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
       4'h3:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\arready_v  = 1'h0;
+          \arready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\rdata_v  = rdata_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rdata_v$next  = rdata_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$37 , \$35  })
-            2'bz1:
-                casez (\$39 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$53 , \$51  })
+            /* src = "core_axi_lite.py:327" */
+            2'b?1:
+                (* src = "core_axi_lite.py:242" *)
+                casez (\$55 )
+                  /* src = "core_axi_lite.py:242" */
                   1'h1:
-                      \$next\rdata_v  = rp_data64[31:0];
-                  1'hz:
-                      \$next\rdata_v  = rp_data64[63:32];
+                      \rdata_v$next  = rp_data64[31:0];
+                  /* src = "core_axi_lite.py:245" */
+                  default:
+                      \rdata_v$next  = rp_data64[63:32];
                 endcase
-            2'b1z:
-                casez (\$41 )
+            /* src = "core_axi_lite.py:330" */
+            2'b1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$57 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rdata_v  = height_width;
-                  1'hz:
-                      \$next\rdata_v  = \$43 ;
+                      \rdata_v$next  = height_width;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rdata_v$next  = \$59 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rdata_v  = 32'd0;
+          \rdata_v$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\rresp_v  = rresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \rresp_v$next  = rresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
       4'h5:
-          casez ({ \$51 , \$49  })
-            2'bz1:
-                \$next\rresp_v  = 2'h0;
-            2'b1z:
-                casez (\$53 )
+          (* src = "core_axi_lite.py:327" *)
+          casez ({ \$67 , \$65  })
+            /* src = "core_axi_lite.py:327" */
+            2'b?1:
+                \rresp_v$next  = 2'h0;
+            /* src = "core_axi_lite.py:330" */
+            2'b1?:
+                (* src = "core_axi_lite.py:213" *)
+                casez (\$69 )
+                  /* src = "core_axi_lite.py:213" */
                   1'h1:
-                      \$next\rresp_v  = 2'h0;
-                  1'hz:
-                      \$next\rresp_v  = 2'h0;
+                      \rresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:218" */
+                  default:
+                      \rresp_v$next  = 2'h0;
                 endcase
-            2'hz:
-                \$next\rresp_v  = 2'h3;
+            /* src = "core_axi_lite.py:337" */
+            default:
+                \rresp_v$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\rresp_v  = 2'h0;
+          \rresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\awready_v  = awready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \awready_v$next  = awready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
       4'h2:
-          \$next\awready_v  = 1'h1;
+          \awready_v$next  = 1'h1;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
       4'h6:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\awready_v  = 1'h0;
+          \awready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\wready_v  = wready_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wready_v$next  = wready_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          \$next\wready_v  = 1'h1;
+        begin
+          \wready_v$next  = 1'h1;
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$75 )
+            /* src = "core_axi_lite.py:366" */
+            1'h1:
+                \wready_v$next  = 1'h0;
+          endcase
+        end
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wready_v  = 1'h0;
+          \wready_v$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\ssss_enable  = 1'h0;
-    \$next\ssss_enable  = addr_v[10];
-  end
-  always @* begin
-    \$next\wp_addr  = wp_addr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wp_addr$next  = wp_addr;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$81 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$61 , \$59  })
-                  2'bz1:
-                      \$next\wp_addr  = \$63 [4:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$89 , \$87  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_addr$next  = \$92 [4:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_addr  = 5'h00;
+          \wp_addr$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\wp_data  = wp_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wp_data$next  = wp_data;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$98 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$72 , \$70  })
-                  2'bz1:
-                      \$next\wp_data  = rp_data64_in[32:0];
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$106 , \$104  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_data$next  = rp_data64_in[32:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_data  = 33'h000000000;
+          \wp_data$next  = 33'h000000000;
     endcase
   end
   always @* begin
-    \$next\wp_en  = wp_en;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \wp_en$next  = wp_en;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$112 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$80 , \$78  })
-                  2'bz1:
-                      \$next\wp_en  = 1'h1;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$120 , \$118  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \wp_en$next  = 1'h1;
                 endcase
           endcase
+      /* src = "core_axi_lite.py:388" */
+      /* \nmigen.decoding  = "WRITE_RESPONSE/9" */
       4'h9:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\wp_en  = 1'h0;
+          \wp_en$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\bresp_v  = bresp_v;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \bresp_v$next  = bresp_v;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$126 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$88 , \$86  })
-                  2'bz1:
-                      \$next\bresp_v  = 2'h0;
-                  2'b1z:
-                      \$next\bresp_v  = 2'h0;
-                  2'hz:
-                      \$next\bresp_v  = 2'h3;
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$134 , \$132  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
+                      \bresp_v$next  = 2'h0;
+                  /* src = "core_axi_lite.py:383" */
+                  default:
+                      \bresp_v$next  = 2'h3;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\bresp_v  = 2'h0;
+          \bresp_v$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\height_width  = height_width;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \height_width$next  = height_width;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$140 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$96 , \$94  })
-                  2'bz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$148 , \$146  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
                       /* empty */;
-                  2'b1z:
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$98 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$150 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [7:0] = wdata_v[7:0];
+                                  \height_width$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$100 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$152 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [15:8] = wdata_v[15:8];
+                                  \height_width$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$102 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$154 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [23:16] = wdata_v[23:16];
+                                  \height_width$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[3])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$104 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$156 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
-                                  \$next\height_width [31:24] = wdata_v[31:24];
+                                  \height_width$next [31:24] = wdata_v[31:24];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_width  = 32'd0;
+          \height_width$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles  = allowed_cycles;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    \allowed_cycles$next  = allowed_cycles;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$162 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$112 , \$110  })
-                  2'bz1:
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$170 , \$168  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
                       /* empty */;
-                  2'b1z:
+                  /* src = "core_axi_lite.py:376" */
+                  2'b1?:
                     begin
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[0])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$114 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$172 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [7:0] = wdata_v[7:0];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[1])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$116 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$174 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [15:8] = wdata_v[15:8];
                             endcase
                       endcase
+                      (* src = "core_axi_lite.py:228" *)
                       casez (wstrb_v[2])
+                        /* src = "core_axi_lite.py:228" */
                         1'h1:
-                            casez (\$118 )
+                            (* src = "core_axi_lite.py:229" *)
+                            casez (\$176 )
+                              /* src = "core_axi_lite.py:229" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\allowed_cycles [23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:231" */
+                              default:
+                                  \allowed_cycles$next [23:16] = wdata_v[23:16];
                             endcase
                       endcase
                     end
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles  = 24'h000000;
+          \allowed_cycles$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\s_axi_ro__arready  = 1'h0;
-    \$next\s_axi_ro__arready  = arready_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rvalid  = 1'h0;
-    \$next\s_axi_ro__rvalid  = rvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__awready  = 1'h0;
-    \$next\s_axi_wo__awready  = awready_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__wready  = 1'h0;
-    \$next\s_axi_wo__wready  = wready_v;
-  end
-  always @* begin
-    \$next\hw_enable  = 1'h0;
-    \$next\hw_enable  = addr_v[11];
-  end
-  always @* begin
-    \$next\s_axi_wo__bvalid  = 1'h0;
-    \$next\s_axi_wo__bvalid  = bvalid_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rdata  = 32'd0;
-    \$next\s_axi_ro__rdata  = rdata_v;
-  end
-  always @* begin
-    \$next\s_axi_ro__rresp  = 2'h0;
-    \$next\s_axi_ro__rresp  = rresp_v;
-  end
-  always @* begin
-    \$next\s_axi_wo__bresp  = 2'h0;
-    \$next\s_axi_wo__bresp  = bresp_v;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_width[15:0];
-  end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = height_width[31:16];
-  end
-  always @* begin
-    \$next\debug_enable  = 1'h0;
-    \$next\debug_enable  = addr_v[12];
-  end
-  always @* begin
-    \$next\ssss_index  = 6'h00;
-    \$next\ssss_index  = addr_v[5:0];
-  end
-  always @* begin
-    \$next\debug_index  = 3'h0;
-    \$next\debug_index  = addr_v[2:0];
-  end
-  always @* begin
-    \$next\hw_index  = 1'h0;
-    \$next\hw_index  = addr_v[0];
-  end
-  always @* begin
-    \$next\rp_data64  = 64'h0000000000000000;
-    \$next\rp_data64  = \$1 ;
-  end
-  always @* begin
-    \$next\rp_data64_in  = 64'h0000000000000000;
-    \$next\rp_data64_in  = 64'h0000000000000000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$134 ) begin end
+    rp_data64_in = rp_data64;
+    (* src = "core_axi_lite.py:291" *)
     casez (fsm_state)
+      /* src = "core_axi_lite.py:293" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      4'h0:
+          /* empty */;
+      /* src = "core_axi_lite.py:306" */
+      /* \nmigen.decoding  = "READ_ADDRESS/1" */
+      4'h1:
+          /* empty */;
+      /* src = "core_axi_lite.py:316" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY1/3" */
+      4'h3:
+          /* empty */;
+      /* src = "core_axi_lite.py:321" */
+      /* \nmigen.decoding  = "READ_DATA_DELAY2/4" */
+      4'h4:
+          /* empty */;
+      /* src = "core_axi_lite.py:325" */
+      /* \nmigen.decoding  = "READ_DATA/5" */
+      4'h5:
+          /* empty */;
+      /* src = "core_axi_lite.py:345" */
+      /* \nmigen.decoding  = "WRITE_ADDRESS/2" */
+      4'h2:
+          /* empty */;
+      /* src = "core_axi_lite.py:355" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY1/6" */
+      4'h6:
+          /* empty */;
+      /* src = "core_axi_lite.py:360" */
+      /* \nmigen.decoding  = "WRITE_DATA_DELAY2/7" */
+      4'h7:
+          /* empty */;
+      /* src = "core_axi_lite.py:364" */
+      /* \nmigen.decoding  = "WRITE_DATA/8" */
       4'h8:
-          casez (s_axi_wi__wvalid)
+          (* src = "core_axi_lite.py:366" *)
+          casez (\$19 )
+            /* src = "core_axi_lite.py:366" */
             1'h1:
-                casez ({ \$9 , \$7  })
-                  2'bz1:
-                      casez (\$11 )
+                (* src = "core_axi_lite.py:373" *)
+                casez ({ \$27 , \$25  })
+                  /* src = "core_axi_lite.py:373" */
+                  2'b?1:
+                      (* src = "core_axi_lite.py:251" *)
+                      casez (\$29 )
+                        /* src = "core_axi_lite.py:251" */
                         1'h1:
                           begin
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [7:0] = wdata_v[7:0];
-                              1'hz:
-                                  \$next\rp_data64_in [7:0] = rp_data64[7:0];
+                                  rp_data64_in[7:0] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[7:0] = rp_data64[7:0];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [15:8] = wdata_v[15:8];
-                              1'hz:
-                                  \$next\rp_data64_in [15:8] = rp_data64[15:8];
+                                  rp_data64_in[15:8] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[15:8] = rp_data64[15:8];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [23:16] = wdata_v[23:16];
-                              1'hz:
-                                  \$next\rp_data64_in [23:16] = rp_data64[23:16];
+                                  rp_data64_in[23:16] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[23:16] = rp_data64[23:16];
                             endcase
+                            (* src = "core_axi_lite.py:255" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:255" */
                               1'h1:
-                                  \$next\rp_data64_in [31:24] = wdata_v[31:24];
-                              1'hz:
-                                  \$next\rp_data64_in [31:24] = rp_data64[31:24];
+                                  rp_data64_in[31:24] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:257" */
+                              default:
+                                  rp_data64_in[31:24] = rp_data64[31:24];
                             endcase
                           end
-                        1'hz:
+                        /* src = "core_axi_lite.py:260" */
+                        default:
                           begin
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[0])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [39:32] = \$13 ;
-                              1'hz:
-                                  \$next\rp_data64_in [39:32] = rp_data64[39:32];
+                                  rp_data64_in[39:32] = wdata_v[7:0];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[39:32] = rp_data64[39:32];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[1])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [47:40] = \$15 ;
-                              1'hz:
-                                  \$next\rp_data64_in [47:40] = rp_data64[47:40];
+                                  rp_data64_in[47:40] = wdata_v[15:8];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[47:40] = rp_data64[47:40];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[2])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [55:48] = \$17 ;
-                              1'hz:
-                                  \$next\rp_data64_in [55:48] = rp_data64[55:48];
+                                  rp_data64_in[55:48] = wdata_v[23:16];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[55:48] = rp_data64[55:48];
                             endcase
+                            (* src = "core_axi_lite.py:264" *)
                             casez (wstrb_v[3])
+                              /* src = "core_axi_lite.py:264" */
                               1'h1:
-                                  \$next\rp_data64_in [63:56] = \$19 ;
-                              1'hz:
-                                  \$next\rp_data64_in [63:56] = rp_data64[63:56];
+                                  rp_data64_in[63:56] = wdata_v[31:24];
+                              /* src = "core_axi_lite.py:266" */
+                              default:
+                                  rp_data64_in[63:56] = rp_data64[63:56];
                             endcase
                           end
                       endcase
@@ -1974,217 +3109,221 @@ module core_axi_lite(s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_a
           endcase
     endcase
   end
-  assign \$25  = \$26 ;
-  assign \$28  = \$29 ;
-  assign \$63  = \$64 ;
-  assign width = \$next\width ;
-  assign height = \$next\height ;
-  assign s_axi_wo__bresp = \$next\s_axi_wo__bresp ;
-  assign s_axi_ro__rresp = \$next\s_axi_ro__rresp ;
-  assign s_axi_ro__rdata = \$next\s_axi_ro__rdata ;
-  assign s_axi_wo__bvalid = \$next\s_axi_wo__bvalid ;
-  assign s_axi_wo__wready = \$next\s_axi_wo__wready ;
-  assign s_axi_wo__awready = \$next\s_axi_wo__awready ;
-  assign s_axi_ro__rvalid = \$next\s_axi_ro__rvalid ;
-  assign s_axi_ro__arready = \$next\s_axi_ro__arready ;
-  assign rp_data64_in = \$next\rp_data64_in ;
-  assign rp_data64 = \$next\rp_data64 ;
-  assign hw_index = \$next\hw_index ;
-  assign debug_index = \$next\debug_index ;
-  assign ssss_index = \$next\ssss_index ;
-  assign debug_enable = \$next\debug_enable ;
-  assign hw_enable = \$next\hw_enable ;
-  assign ssss_enable = \$next\ssss_enable ;
-  assign wstrb_v = \$next\wstrb_v ;
-  assign wdata_v = \$next\wdata_v ;
+  assign \$41  = \$42 ;
+  assign \$44  = \$45 ;
+  assign \$91  = \$92 ;
+  assign width = height_width[31:16];
+  assign height = height_width[15:0];
+  assign s_axi_wo__bresp = bresp_v;
+  assign s_axi_ro__rresp = rresp_v;
+  assign s_axi_ro__rdata = rdata_v;
+  assign s_axi_wo__bvalid = bvalid_v;
+  assign s_axi_wo__wready = wready_v;
+  assign s_axi_wo__awready = awready_v;
+  assign s_axi_ro__rvalid = rvalid_v;
+  assign s_axi_ro__arready = arready_v;
+  assign rp_data64 = \$13 ;
+  assign hw_index = addr_v[0];
+  assign debug_index = addr_v[2:0];
+  assign ssss_index = addr_v[5:0];
+  assign debug_enable = addr_v[12];
+  assign hw_enable = addr_v[11];
+  assign ssss_enable = addr_v[10];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
 (* generator = "nMigen" *)
-module difference(pixel_in, predic_in, end_in, rst, clk, val_out, \val_out$1 , valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.difference" *)
+module difference(rst, pixel_in, predic_in, valid_in, end_in, val_out, \val_out$1 , valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$135  = 0;
+  (* src = "difference.py:91" *)
   wire [12:0] \$2 ;
+  (* src = "difference.py:98" *)
   wire [13:0] \$4 ;
-  wire [12:0] \$5 ;
-  wire [13:0] \$7 ;
-  (* src = "difference.py:72" *)
-  reg \$next\end_out ;
-  (* src = "difference.py:61" *)
-  reg [12:0] \$next\val_out ;
-  (* src = "difference.py:64" *)
-  reg [12:0] \$next\val_out$1 ;
-  (* src = "difference.py:68" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "difference.py:98" *)
+  wire [13:0] \$5 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
+  (* src = "difference.py:90" *)
+  reg [12:0] diff;
   (* src = "difference.py:71" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "difference.py:72" *)
   output end_out;
   reg end_out = 1'h0;
+  (* src = "difference.py:72" *)
+  reg \end_out$next ;
   (* src = "difference.py:55" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "difference.py:58" *)
   input [11:0] predic_in;
+  wire [11:0] predic_in;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 13'h0000 *)
+  wire rst;
   (* src = "difference.py:61" *)
   output [12:0] val_out;
   reg [12:0] val_out = 13'h0000;
-  (* init = 13'h0000 *)
   (* src = "difference.py:64" *)
   output [12:0] \val_out$1 ;
   reg [12:0] \val_out$1  = 13'h0000;
+  (* src = "difference.py:64" *)
+  reg [12:0] \val_out$1$next ;
+  (* src = "difference.py:61" *)
+  reg [12:0] \val_out$next ;
   (* src = "difference.py:67" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "difference.py:68" *)
   output valid_out;
   reg valid_out = 1'h0;
-  assign \$2  = pixel_in - (* src = "difference.py:89" *) predic_in;
-  assign \$5  = pixel_in - (* src = "difference.py:90" *) predic_in;
-  assign \$7  = \$5  - (* src = "difference.py:90" *) 1'h1;
+  (* src = "difference.py:68" *)
+  reg \valid_out$next ;
+  assign \$2  = pixel_in - (* src = "difference.py:91" *) predic_in;
+  assign \$5  = diff - (* src = "difference.py:98" *) 1'h1;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \val_out$1  <= \$next\val_out$1 ;
+    \val_out$1  <= \val_out$1$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
+  always @* begin
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    diff = 13'h0000;
+    (* src = "difference.py:88" *)
+    casez (valid_in)
+      /* src = "difference.py:88" */
+      1'h1:
+          diff = \$2 ;
+    endcase
+  end
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \val_out$next  = val_out;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out  = \$2 ;
+          \val_out$next  = diff;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 13'h0000;
+          \val_out$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\val_out$1  = \val_out$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \val_out$1$next  = \val_out$1 ;
+    (* src = "difference.py:88" *)
     casez (valid_in)
+      /* src = "difference.py:88" */
       1'h1:
-          \$next\val_out$1  = \$4 [12:0];
+          \val_out$1$next  = \$5 [12:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out$1  = 13'h0000;
+          \val_out$1$next  = 13'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$135 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
-  assign \$4  = \$7 ;
+  assign \$4  = \$5 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
 (* generator = "nMigen" *)
-module encode(end_in, valid_in, ssss, rst, clk, mem_r_addr, mem_w_en, mem_w_addr, mem_w_data, enc_out, enc_ctr, valid_out, end_out, mem_r_data, val_in);
-  (* src = "encode.py:184" *)
-  reg [4:0] \$next\enc_ctr ;
-  (* src = "encode.py:182" *)
-  reg [27:0] \$next\enc_out ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.encode" *)
+module encode(rst, val_in, ssss, valid_in, end_in, mem_r_data, mem_r_addr, mem_w_addr, mem_w_data, mem_w_en, enc_out, enc_ctr, valid_out, end_out, clk);
+  (* src = "encode.py:99" *)
+  wire [4:0] \U$$0_enc_ctr ;
+  (* src = "encode.py:97" *)
+  wire [27:0] \U$$0_enc_out ;
   (* src = "encode.py:106" *)
-  reg \$next\end_in$2 ;
-  (* src = "encode.py:192" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\mem_r_addr$11 ;
+  wire \U$$0_end_in ;
+  (* src = "encode.py:107" *)
+  wire \U$$0_end_out ;
+  (* src = "encode.py:88" *)
+  wire [4:0] \U$$0_rp_addr ;
   (* src = "encode.py:89" *)
-  reg [32:0] \$next\rp_data ;
+  wire [32:0] \U$$0_rp_data ;
   (* src = "encode.py:94" *)
-  reg [4:0] \$next\ssss$3 ;
+  wire [4:0] \U$$0_ssss ;
   (* src = "encode.py:92" *)
-  reg [11:0] \$next\val_in$4 ;
+  wire [11:0] \U$$0_val_in ;
   (* src = "encode.py:102" *)
-  reg \$next\valid_in$1 ;
-  (* src = "encode.py:188" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid_in ;
+  (* src = "encode.py:103" *)
+  wire \U$$0_valid_out ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "encode.py:184" *)
   output [4:0] enc_ctr;
-  (* src = "encode.py:99" *)
-  wire [4:0] \enc_ctr$8 ;
+  wire [4:0] enc_ctr;
   (* src = "encode.py:182" *)
   output [27:0] enc_out;
-  (* src = "encode.py:97" *)
-  wire [27:0] \enc_out$7 ;
+  wire [27:0] enc_out;
   (* src = "encode.py:191" *)
   input end_in;
-  (* src = "encode.py:106" *)
-  wire \end_in$2 ;
+  wire end_in;
   (* src = "encode.py:192" *)
   output end_out;
-  (* src = "encode.py:107" *)
-  wire \end_out$6 ;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  wire end_out;
+  (* src = "encode.py:201" *)
   input [3:0] mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [3:0] \mem_r_addr$11 ;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  wire [3:0] mem_r_addr;
+  (* src = "encode.py:196" *)
+  wire [3:0] \mem_r_addr$2 ;
+  (* src = "encode.py:201" *)
   output [32:0] mem_r_data;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [32:0] \mem_r_data$12 ;
-  (* src = "nmigen/hdl/mem.py:146" *)
+  wire [32:0] mem_r_data;
+  (* src = "encode.py:196" *)
+  wire [32:0] \mem_r_data$3 ;
+  (* src = "encode.py:200" *)
   input [3:0] mem_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
+  wire [3:0] mem_w_addr;
+  (* src = "encode.py:200" *)
   input [32:0] mem_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
+  wire [32:0] mem_w_data;
+  (* src = "encode.py:200" *)
   input mem_w_en;
-  (* src = "encode.py:88" *)
-  wire [4:0] rp_addr;
-  (* src = "encode.py:89" *)
-  wire [32:0] rp_data;
+  wire mem_w_en;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "encode.py:179" *)
   input [4:0] ssss;
-  (* src = "encode.py:94" *)
-  wire [4:0] \ssss$3 ;
+  wire [4:0] ssss;
   (* src = "encode.py:177" *)
   input [11:0] val_in;
-  (* src = "encode.py:92" *)
-  wire [11:0] \val_in$4 ;
+  wire [11:0] val_in;
   (* src = "encode.py:187" *)
   input valid_in;
-  (* src = "encode.py:102" *)
-  wire \valid_in$1 ;
+  wire valid_in;
   (* src = "encode.py:188" *)
   output valid_out;
-  (* src = "encode.py:103" *)
-  wire \valid_out$5 ;
-  \anonymous$1  \$9  (
-    .clk(clk),
-    .enc_ctr(\enc_ctr$8 ),
-    .enc_out(\enc_out$7 ),
-    .end_in(\end_in$2 ),
-    .end_out(\end_out$6 ),
-    .rp_addr(rp_addr),
-    .rp_data(rp_data),
-    .rst(rst),
-    .ssss(\ssss$3 ),
-    .val_in(\val_in$4 ),
-    .valid_in(\valid_in$1 ),
-    .valid_out(\valid_out$5 )
-  );
+  wire valid_out;
   reg [32:0] mem [12:0];
   initial begin
     mem[0] = 33'h04000000e;
@@ -2201,471 +3340,450 @@ module encode(end_in, valid_in, ssss, rst, clk, mem_r_addr, mem_w_en, mem_w_addr
     mem[11] = 33'h08007f000;
     mem[12] = 33'h0901fe000;
   end
+  always @(posedge clk) begin
+    if (mem_w_en)
+      mem[mem_w_addr] <= mem_w_data;
+  end
   reg [3:0] _0_;
   reg [3:0] _1_;
   always @(posedge clk) begin
-    _0_ <= \$next\mem_r_addr$11 ;
+    _0_ <= \mem_r_addr$2 ;
     _1_ <= mem_r_addr;
-    if (mem_w_en) mem[mem_w_addr] <= mem_w_data;
   end
-  assign \mem_r_data$12  = mem[_0_];
+  assign \mem_r_data$3  = mem[_0_];
   assign mem_r_data = mem[_1_];
-  always @* begin
-    \$next\val_in$4  = 12'h000;
-    \$next\val_in$4  = val_in;
-  end
-  always @* begin
-    \$next\end_in$2  = 1'h0;
-    \$next\end_in$2  = end_in;
-  end
-  always @* begin
-    \$next\valid_in$1  = 1'h0;
-    \$next\valid_in$1  = valid_in;
-  end
-  always @* begin
-    \$next\ssss$3  = 5'h00;
-    \$next\ssss$3  = ssss;
-  end
-  always @* begin
-    \$next\mem_r_addr$11  = 4'h0;
-    \$next\mem_r_addr$11  = rp_addr[3:0];
-  end
-  always @* begin
-    \$next\rp_data  = 33'h000000000;
-    \$next\rp_data  = \mem_r_data$12 ;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \enc_out$7 ;
-  end
-  always @* begin
-    \$next\enc_ctr  = 5'h00;
-    \$next\enc_ctr  = \enc_ctr$8 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = \valid_out$5 ;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$6 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_ctr = \$next\enc_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign rp_data = \$next\rp_data ;
-  assign \mem_r_addr$11  = \$next\mem_r_addr$11 ;
-  assign \ssss$3  = \$next\ssss$3 ;
-  assign \valid_in$1  = \$next\valid_in$1 ;
-  assign \end_in$2  = \$next\end_in$2 ;
-  assign \val_in$4  = \$next\val_in$4 ;
+  \U$$0$1  \U$$0  (
+    .clk(clk),
+    .enc_ctr(\U$$0_enc_ctr ),
+    .enc_out(\U$$0_enc_out ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
+    .rp_addr(\U$$0_rp_addr ),
+    .rp_data(\U$$0_rp_data ),
+    .rst(rst),
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .valid_in(\U$$0_valid_in ),
+    .valid_out(\U$$0_valid_out )
+  );
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_out ;
+  assign enc_ctr = \U$$0_enc_ctr ;
+  assign enc_out = \U$$0_enc_out ;
+  assign \U$$0_rp_data  = \mem_r_data$3 ;
+  assign \mem_r_addr$2  = \U$$0_rp_addr [3:0];
+  assign \U$$0_ssss  = ssss;
+  assign \U$$0_valid_in  = valid_in;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 (* generator = "nMigen" *)
-module fifo(we, re, rst, clk, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
+module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$136  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [9:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [33:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [33:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [33:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [33:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [9:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [9:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [33:0] r_data;
+  wire [33:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [33:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [33:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [33:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [33:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [33:0] w_data;
+  wire [33:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
+    r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 34'h000000000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 34'h000000000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$136 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 10'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
 (* generator = "nMigen" *)
-module \fifo$2 (we, re, rst, clk, writable, dout, readable, level, din);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo" *)
+module \fifo$2 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$137  = 0;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$1 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$3 ;
+  (* src = "nmigen/lib/fifo.py:316" *)
   wire \$5 ;
+  (* src = "nmigen/lib/fifo.py:323" *)
   wire [10:0] \$7 ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [19:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:238" *)
-  reg [10:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [19:0] \$next\unbuffered_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\unbuffered_re ;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  reg \$next\unbuffered_replace ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\unbuffered_we ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* init = 1'h0 *)
-  reg \$verilog_initial_trigger  = 1'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [19:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [19:0] dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:292" *)
   output [10:0] level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* init = 1'h0 *)
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  reg readable = 1'h0;
+  wire [10:0] level;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [19:0] r_data;
+  wire [19:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  reg r_rdy = 1'h0;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [19:0] unbuffered_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [19:0] unbuffered_dout;
-  (* src = "nmigen/lib/fifo.py:138" *)
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:190" *)
   wire [9:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire unbuffered_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire unbuffered_readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  wire unbuffered_replace;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire unbuffered_we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  wire unbuffered_writable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:256" *) readable;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:256" *) re;
-  assign \$5  = unbuffered_readable & (* src = "nmigen/lib/fifo.py:256" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:263" *) readable;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [19:0] unbuffered_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire unbuffered_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire unbuffered_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [19:0] unbuffered_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire unbuffered_w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  wire unbuffered_w_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [19:0] w_data;
+  wire [19:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
+  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
   always @(posedge clk)
-      readable <= \$next\readable ;
+    r_rdy <= \r_rdy$next ;
   \unbuffered$3  unbuffered (
     .clk(clk),
-    .din(unbuffered_din),
-    .dout(unbuffered_dout),
     .level(unbuffered_level),
-    .re(unbuffered_re),
-    .readable(unbuffered_readable),
-    .replace(unbuffered_replace),
+    .r_data(unbuffered_r_data),
+    .r_en(unbuffered_r_en),
+    .r_rdy(unbuffered_r_rdy),
     .rst(rst),
-    .we(unbuffered_we),
-    .writable(unbuffered_writable)
+    .w_data(unbuffered_w_data),
+    .w_en(unbuffered_w_en),
+    .w_rdy(unbuffered_w_rdy)
   );
   always @* begin
-    \$next\unbuffered_din  = 20'h00000;
-    \$next\unbuffered_din  = din;
-  end
-  always @* begin
-    \$next\unbuffered_we  = 1'h0;
-    \$next\unbuffered_we  = we;
-  end
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = unbuffered_writable;
-  end
-  always @* begin
-    \$next\unbuffered_replace  = 1'h0;
-    \$next\unbuffered_replace  = 1'h0;
-    \$verilog_initial_trigger  = \$verilog_initial_trigger ;
-  end
-  always @* begin
-    \$next\dout  = 20'h00000;
-    \$next\dout  = unbuffered_dout;
-  end
-  always @* begin
-    \$next\unbuffered_re  = 1'h0;
-    \$next\unbuffered_re  = \$5 ;
-  end
-  always @* begin
-    \$next\readable  = readable;
-    casez ({ re, unbuffered_re })
-      2'bz1:
-          \$next\readable  = 1'h1;
-      2'b1z:
-          \$next\readable  = 1'h0;
-    endcase
+    if (\$auto$verilog_backend.cc:2184:dump_module$137 ) begin end
+    \r_rdy$next  = r_rdy;
+    (* src = "nmigen/lib/fifo.py:318" *)
+    casez ({ r_en, unbuffered_r_en })
+      /* src = "nmigen/lib/fifo.py:318" */
+      2'b?1:
+          \r_rdy$next  = 1'h1;
+      /* src = "nmigen/lib/fifo.py:320" */
+      2'b1?:
+          \r_rdy$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\readable  = 1'h0;
+          \r_rdy$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\level  = 11'h000;
-    \$next\level  = \$7 ;
-  end
-  assign level = \$next\level ;
-  assign unbuffered_re = \$next\unbuffered_re ;
-  assign dout = \$next\dout ;
-  assign unbuffered_replace = \$next\unbuffered_replace ;
-  assign writable = \$next\writable ;
-  assign unbuffered_we = \$next\unbuffered_we ;
-  assign unbuffered_din = \$next\unbuffered_din ;
+  assign level = \$7 ;
+  assign unbuffered_r_en = \$5 ;
+  assign r_data = unbuffered_r_data;
+  assign w_rdy = unbuffered_w_rdy;
+  assign unbuffered_w_en = w_en;
+  assign unbuffered_w_data = w_data;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
 (* generator = "nMigen" *)
-module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_out_ctr, o_busy, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff" *)
+module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_out, end_out, data_out_ctr, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$138  = 0;
+  (* src = "fix_0xff.py:106" *)
   wire \$1 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$101 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$103 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$105 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$107 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$109 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$11 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$111 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$113 ;
+  (* src = "fix_0xff.py:137" *)
   wire \$115 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$117 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$119 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$121 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$123 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$125 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$127 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$129 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$13 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$131 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$133 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$135 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$137 ;
+  (* src = "fix_0xff.py:141" *)
   wire \$139 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$15 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$17 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$19 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$21 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$23 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$25 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$27 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$29 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$3 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$31 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$33 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$35 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$37 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$39 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$41 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$43 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$45 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$47 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$49 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$5 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$51 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$53 ;
+  (* src = "fix_0xff.py:49" *)
   wire [31:0] \$55 ;
+  (* src = "fix_0xff.py:55" *)
   wire [31:0] \$57 ;
+  (* src = "fix_0xff.py:69" *)
   wire [31:0] \$59 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$61 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$63 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$65 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$67 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$69 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$7 ;
+  (* src = "fix_0xff.py:107" *)
   wire \$71 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$73 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$75 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$77 ;
+  (* src = "fix_0xff.py:41" *)
   wire \$79 ;
+  (* src = "fix_0xff.py:47" *)
   wire \$81 ;
+  (* src = "fix_0xff.py:53" *)
   wire \$83 ;
+  (* src = "fix_0xff.py:106" *)
   wire \$85 ;
+  (* src = "fix_0xff.py:125" *)
   wire \$87 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$89 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$9 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$91 ;
+  (* src = "fix_0xff.py:135" *)
   wire \$93 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$95 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$97 ;
+  (* src = "fix_0xff.py:138" *)
   wire \$99 ;
-  (* src = "fix_0xff.py:72" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "fix_0xff.py:73" *)
-  reg [2:0] \$next\data_out_ctr ;
-  (* src = "fix_0xff.py:99" *)
-  reg [2:0] \$next\data_out_ctr_reg ;
-  (* src = "fix_0xff.py:97" *)
-  reg [31:0] \$next\data_out_reg ;
-  (* src = "fix_0xff.py:100" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff.py:82" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff.py:98" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff.py:78" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff.py:93" *)
-  reg [7:0] \$next\ones ;
-  (* src = "fix_0xff.py:77" *)
-  reg \$next\valid_out ;
-  (* src = "fix_0xff.py:92" *)
-  reg [7:0] \$next\zeros ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff.py:69" *)
   input [15:0] data_in;
-  (* init = 32'd0 *)
+  wire [15:0] data_in;
   (* src = "fix_0xff.py:72" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:72" *)
+  reg [31:0] \data_out$next ;
   (* src = "fix_0xff.py:73" *)
   output [2:0] data_out_ctr;
   reg [2:0] data_out_ctr = 3'h0;
-  (* init = 3'h0 *)
+  (* src = "fix_0xff.py:73" *)
+  reg [2:0] \data_out_ctr$next ;
   (* src = "fix_0xff.py:99" *)
   reg [2:0] data_out_ctr_reg = 3'h0;
-  (* init = 32'd0 *)
+  (* src = "fix_0xff.py:99" *)
+  reg [2:0] \data_out_ctr_reg$next ;
   (* src = "fix_0xff.py:97" *)
   reg [31:0] data_out_reg = 32'd0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:97" *)
+  reg [31:0] \data_out_reg$next ;
   (* src = "fix_0xff.py:100" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff.py:100" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff.py:81" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff.py:82" *)
+  output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff.py:82" *)
+  reg \end_out$next ;
   (* src = "fix_0xff.py:98" *)
   reg end_out_reg = 1'h0;
+  (* src = "fix_0xff.py:98" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff.py:79" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff.py:78" *)
   output o_busy;
   reg o_busy = 1'h0;
-  (* init = 8'hff *)
+  (* src = "fix_0xff.py:78" *)
+  reg \o_busy$next ;
   (* src = "fix_0xff.py:93" *)
   reg [7:0] ones = 8'hff;
+  (* src = "fix_0xff.py:93" *)
+  reg [7:0] \ones$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
-  (* init = 8'h00 *)
+  (* src = "fix_0xff.py:77" *)
+  reg \valid_out$next ;
   (* src = "fix_0xff.py:92" *)
   reg [7:0] zeros = 8'h00;
+  (* src = "fix_0xff.py:92" *)
+  reg [7:0] \zeros$next ;
   assign \$9  = \$5  & (* src = "fix_0xff.py:135" *) \$7 ;
   assign \$99  = \$95  & (* src = "fix_0xff.py:138" *) \$97 ;
   assign \$101  = i_busy == (* src = "fix_0xff.py:106" *) 1'h0;
@@ -2737,449 +3855,673 @@ module fix_0xff(valid_in, end_in, data_in, rst, clk, valid_out, data_out, data_o
   assign \$95  = valid_in == (* src = "fix_0xff.py:138" *) 1'h1;
   assign \$97  = valid_out == (* src = "fix_0xff.py:138" *) 1'h1;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_ctr_reg <= \$next\data_out_ctr_reg ;
+    data_out_ctr_reg <= \data_out_ctr_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      data_out_ctr <= \$next\data_out_ctr ;
+    data_out_ctr <= \data_out_ctr$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      zeros <= \$next\zeros ;
+    zeros <= \zeros$next ;
   always @(posedge clk)
-      ones <= \$next\ones ;
+    ones <= \ones$next ;
   always @* begin
-    \$next\ones  = ones;
-    \$next\ones  = 8'hff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \ones$next  = 8'hff;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ones  = 8'hff;
+          \ones$next  = 8'hff;
     endcase
   end
   always @* begin
-    \$next\zeros  = zeros;
-    \$next\zeros  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \zeros$next  = 8'h00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\zeros  = 8'h00;
+          \zeros$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$139 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
-          \$next\end_out_reg  = end_in;
+          \end_out_reg$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$9 , \$3 , \$1  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$11 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\valid_out  = valid_in;
-            1'hz:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = valid_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \valid_out$next  = 1'h1;
           endcase
-      3'bz1z:
-          \$next\valid_out  = valid_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \valid_out$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$21 , \$15 , \$13  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$23 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
-                \$next\end_out  = end_in;
-            1'hz:
-                \$next\end_out  = end_out_reg;
+                \end_out$next  = end_in;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \end_out$next  = end_out_reg;
           endcase
-      3'bz1z:
-          \$next\end_out  = end_in;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \end_out$next  = end_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$33 , \$27 , \$25  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$35 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$41 , \$39 , \$37  })
-                  3'bzz1:
-                      \$next\data_out  = { ones, zeros, ones, zeros };
-                  3'bz1z:
-                      \$next\data_out  = \$43 ;
-                  3'b1zz:
-                      \$next\data_out  = \$45 ;
-                  3'hz:
-                      \$next\data_out  = \$47 ;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out$next  = { ones, zeros, ones, zeros };
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out$next  = \$43 ;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out$next  = \$45 ;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out$next  = \$47 ;
                 endcase
-            1'hz:
-                \$next\data_out  = data_out_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out$next  = data_out_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$53 , \$51 , \$49  })
-            3'bzz1:
-                \$next\data_out  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out  = \$55 ;
-            3'b1zz:
-                \$next\data_out  = \$57 ;
-            3'hz:
-                \$next\data_out  = \$59 ;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out$next  = \$55 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out$next  = \$57 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out$next  = \$59 ;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr  = data_out_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_ctr$next  = data_out_ctr;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$69 , \$63 , \$61  })
-      3'bzz1:
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          (* src = "fix_0xff.py:107" *)
           casez (\$71 )
+            /* src = "fix_0xff.py:107" */
             1'h1:
+                (* src = "fix_0xff.py:41" *)
                 casez ({ \$77 , \$75 , \$73  })
-                  3'bzz1:
-                      \$next\data_out_ctr  = 3'h4;
-                  3'bz1z:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'b1zz:
-                      \$next\data_out_ctr  = 3'h3;
-                  3'hz:
-                      \$next\data_out_ctr  = 3'h2;
+                  /* src = "fix_0xff.py:41" */
+                  3'b??1:
+                      \data_out_ctr$next  = 3'h4;
+                  /* src = "fix_0xff.py:47" */
+                  3'b?1?:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:53" */
+                  3'b1??:
+                      \data_out_ctr$next  = 3'h3;
+                  /* src = "fix_0xff.py:58" */
+                  default:
+                      \data_out_ctr$next  = 3'h2;
                 endcase
-            1'hz:
-                \$next\data_out_ctr  = data_out_ctr_reg;
+            /* src = "fix_0xff.py:113" */
+            default:
+                \data_out_ctr$next  = data_out_ctr_reg;
           endcase
-      3'bz1z:
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$83 , \$81 , \$79  })
-            3'bzz1:
-                \$next\data_out_ctr  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr  = 3'h2;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr$next  = 3'h2;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr  = 3'h0;
+          \data_out_ctr$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$93 , \$87 , \$85  })
-      3'bzz1:
-          \$next\o_busy  = 1'h0;
-      3'bz1z:
-          \$next\o_busy  = 1'h0;
-      3'b1zz:
-          \$next\o_busy  = \$99 ;
-    endcase
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \o_busy$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \o_busy$next  = \$99 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff.py:106" *)
     casez ({ \$109 , \$103 , \$101  })
-      3'bzz1:
-          \$next\data_out_valid  = 1'h0;
-      3'bz1z:
-          \$next\data_out_valid  = 1'h0;
-      3'b1zz:
-          \$next\data_out_valid  = \$115 ;
-    endcase
+      /* src = "fix_0xff.py:106" */
+      3'b??1:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:125" */
+      3'b?1?:
+          \data_out_valid$next  = 1'h0;
+      /* src = "fix_0xff.py:135" */
+      3'b1??:
+          \data_out_valid$next  = \$115 ;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$117 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$123 , \$121 , \$119  })
-            3'bzz1:
-                \$next\data_out_reg  = { ones, zeros, ones, zeros };
-            3'bz1z:
-                \$next\data_out_reg  = \$125 ;
-            3'b1zz:
-                \$next\data_out_reg  = \$127 ;
-            3'hz:
-                \$next\data_out_reg  = \$129 ;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_reg$next  = { ones, zeros, ones, zeros };
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_reg$next  = \$125 ;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_reg$next  = \$127 ;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_reg$next  = \$129 ;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 32'd0;
+          \data_out_reg$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\data_out_ctr_reg  = data_out_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$138 ) begin end
+    \data_out_ctr_reg$next  = data_out_ctr_reg;
+    (* src = "fix_0xff.py:141" *)
     casez (\$131 )
+      /* src = "fix_0xff.py:141" */
       1'h1:
+          (* src = "fix_0xff.py:41" *)
           casez ({ \$137 , \$135 , \$133  })
-            3'bzz1:
-                \$next\data_out_ctr_reg  = 3'h4;
-            3'bz1z:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'b1zz:
-                \$next\data_out_ctr_reg  = 3'h3;
-            3'hz:
-                \$next\data_out_ctr_reg  = 3'h2;
-          endcase
-    endcase
+            /* src = "fix_0xff.py:41" */
+            3'b??1:
+                \data_out_ctr_reg$next  = 3'h4;
+            /* src = "fix_0xff.py:47" */
+            3'b?1?:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:53" */
+            3'b1??:
+                \data_out_ctr_reg$next  = 3'h3;
+            /* src = "fix_0xff.py:58" */
+            default:
+                \data_out_ctr_reg$next  = 3'h2;
+          endcase
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_ctr_reg  = 3'h0;
+          \data_out_ctr_reg$next  = 3'h0;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
 (* generator = "nMigen" *)
-module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, data_out, o_busy, end_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.fix_0xff2" *)
+module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$139  = 0;
+  (* src = "fix_0xff2.py:184" *)
   wire \$1 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$101 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$103 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$105 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$107 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$109 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$11 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$111 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$113 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$115 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$117 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$119 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$121 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$123 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$125 ;
+  (* src = "fix_0xff2.py:211" *)
   wire \$127 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$129 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$13 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$131 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$133 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$135 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$137 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$139 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$141 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$143 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$145 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$147 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$149 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$15 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$151 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$153 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$155 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$157 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$159 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$161 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$163 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$165 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$167 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$169 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$17 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$171 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$173 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$175 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$177 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$179 ;
+  (* src = "fix_0xff2.py:222" *)
   wire \$181 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$183 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$185 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$187 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$189 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$19 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$191 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$193 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$195 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$197 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$199 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$201 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$203 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$205 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$207 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$209 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$21 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$211 ;
+  (* src = "fix_0xff2.py:140" *)
   wire \$213 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$215 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$217 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$219 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$221 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$223 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$225 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$227 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$229 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$23 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$231 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$233 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$235 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$237 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$239 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$241 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$243 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$245 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$247 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$249 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$25 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$251 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$253 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$255 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$257 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$259 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$261 ;
+  (* src = "fix_0xff2.py:210" *)
   wire \$263 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$265 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$267 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$269 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$27 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$271 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$273 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$275 ;
+  (* src = "fix_0xff2.py:102" *)
   wire \$277 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$29 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$3 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$31 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$33 ;
+  (* src = "fix_0xff2.py:234" *)
   wire \$35 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$37 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$39 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$41 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$43 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$45 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$49 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$51 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$53 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$55 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$57 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$59 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$61 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$63 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$67 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$69 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$71 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$73 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
+  (* src = "nmigen/hdl/ast.py:230" *)
   wire [23:0] \$79 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
+  (* src = "fix_0xff2.py:199" *)
   wire \$83 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$85 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$87 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$89 ;
+  (* src = "fix_0xff2.py:208" *)
   wire \$9 ;
+  (* src = "fix_0xff2.py:185" *)
   wire \$91 ;
+  (* src = "fix_0xff2.py:214" *)
   wire \$93 ;
+  (* src = "fix_0xff2.py:218" *)
   wire \$95 ;
+  (* src = "fix_0xff2.py:219" *)
   wire \$97 ;
+  (* src = "fix_0xff2.py:184" *)
   wire \$99 ;
   (* src = "fix_0xff2.py:174" *)
-  reg [1:0] \$next\buffer_count ;
-  (* src = "fix_0xff2.py:173" *)
-  reg [23:0] \$next\buffer_data ;
-  (* src = "fix_0xff2.py:153" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "fix_0xff2.py:176" *)
-  reg [15:0] \$next\data_out_reg ;
-  (* src = "fix_0xff2.py:178" *)
-  reg \$next\data_out_valid ;
-  (* src = "fix_0xff2.py:160" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:177" *)
-  reg \$next\end_out_reg ;
-  (* src = "fix_0xff2.py:180" *)
-  reg \$next\end_reg ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "fix_0xff2.py:162" *)
-  reg \$next\o_busy ;
-  (* src = "fix_0xff2.py:157" *)
-  reg \$next\valid_out ;
-  (* init = 2'h0 *)
-  (* src = "fix_0xff2.py:174" *)
   reg [1:0] buffer_count = 2'h0;
-  (* init = 24'h000000 *)
+  (* src = "fix_0xff2.py:174" *)
+  reg [1:0] \buffer_count$next ;
   (* src = "fix_0xff2.py:173" *)
   reg [23:0] buffer_data = 24'h000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "fix_0xff2.py:173" *)
+  reg [23:0] \buffer_data$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "fix_0xff2.py:149" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "fix_0xff2.py:150" *)
   input [2:0] data_in_ctr;
-  (* init = 16'h0000 *)
+  wire [2:0] data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "fix_0xff2.py:153" *)
+  reg [15:0] \data_out$next ;
   (* src = "fix_0xff2.py:176" *)
   reg [15:0] data_out_reg = 16'h0000;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:176" *)
+  reg [15:0] \data_out_reg$next ;
   (* src = "fix_0xff2.py:178" *)
   reg data_out_valid = 1'h0;
+  (* src = "fix_0xff2.py:178" *)
+  reg \data_out_valid$next ;
   (* src = "fix_0xff2.py:159" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "fix_0xff2.py:160" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:160" *)
+  reg \end_out$next ;
   (* src = "fix_0xff2.py:177" *)
   reg end_out_reg = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "fix_0xff2.py:177" *)
+  reg \end_out_reg$next ;
   (* src = "fix_0xff2.py:180" *)
   reg end_reg = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "fix_0xff2.py:180" *)
+  reg \end_reg$next ;
+  (* src = "fix_0xff2.py:182" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "fix_0xff2.py:182" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "fix_0xff2.py:163" *)
   input i_busy;
-  (* init = 1'h0 *)
+  wire i_busy;
   (* src = "fix_0xff2.py:162" *)
   output o_busy;
   reg o_busy = 1'h0;
+  (* src = "fix_0xff2.py:162" *)
+  reg \o_busy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "fix_0xff2.py:156" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "fix_0xff2.py:157" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "fix_0xff2.py:157" *)
+  reg \valid_out$next ;
   assign \$9  = \$5  & (* src = "fix_0xff2.py:208" *) \$7 ;
   assign \$99  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$101  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
@@ -3292,24 +4634,24 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
+  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:123" *) data_in[15:0];
+  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:123" *) buffer_data[7:0];
+  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -3320,1061 +4662,1591 @@ module fix_0xff2(valid_in, data_in_ctr, data_in, end_in, rst, clk, valid_out, da
   assign \$95  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$97  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      o_busy <= \$next\o_busy ;
+    o_busy <= \o_busy$next ;
   always @(posedge clk)
-      buffer_count <= \$next\buffer_count ;
+    buffer_count <= \buffer_count$next ;
   always @(posedge clk)
-      buffer_data <= \$next\buffer_data ;
+    buffer_data <= \buffer_data$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out_reg <= \$next\end_out_reg ;
+    end_out_reg <= \end_out_reg$next ;
   always @(posedge clk)
-      data_out_reg <= \$next\data_out_reg ;
+    data_out_reg <= \data_out_reg$next ;
   always @(posedge clk)
-      data_out_valid <= \$next\data_out_valid ;
+    data_out_valid <= \data_out_valid$next ;
   always @(posedge clk)
-      end_reg <= \$next\end_reg ;
+    end_reg <= \end_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$9 , \$3 , \$1  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$11 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
-                      \$next\valid_out  = valid_in;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = valid_in;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
-            3'bz1z:
-                \$next\valid_out  = valid_in;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \valid_out$next  = valid_in;
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$13 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$15 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
-                  1'hz:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$17 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\valid_out  = 1'h1;
+                      \valid_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \data_out$next  = data_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$27 , \$21 , \$19  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$29 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
                                     3'h2:
-                                        \$next\data_out  = data_in[15:0];
+                                        \data_out$next  = data_in[15:0];
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\data_out  = data_in[23:8];
+                                        \data_out$next  = data_in[23:8];
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\data_out  = data_in[31:16];
+                                        \data_out$next  = data_in[31:16];
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                        \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out  = data_in[15:0];
+                                  \data_out$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out  = data_in[23:8];
+                                  \data_out$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out  = data_in[31:16];
+                                  \data_out$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$31 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$33 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
                           begin
-                            \$next\data_out [15:8] = buffer_data[7:0];
-                            \$next\data_out [7:0] = 8'h00;
+                            \data_out$next [15:8] = buffer_data[7:0];
+                            \data_out$next [7:0] = 8'h00;
                           end
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\data_out  = buffer_data[15:0];
+                            \data_out$next  = buffer_data[15:0];
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\data_out  = buffer_data[23:8];
+                            \data_out$next  = buffer_data[23:8];
                       endcase
-                  1'hz:
-                      \$next\data_out  = data_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$35 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\data_out  = data_out_reg;
+                      \data_out$next  = data_out_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out_reg  = end_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_out_reg$next  = end_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$271 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$277 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out_reg  = 1'h1;
+                                  \end_out_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out_reg  = 1'h0;
+          \end_out_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer_data  = buffer_data;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \buffer_data$next  = buffer_data;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$45 , \$39 , \$37  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$47 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_data  = \$49 ;
+                                        \buffer_data$next  = \$49 ;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_data  = \$51 ;
+                                        \buffer_data$next  = \$51 ;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_data  = \$53 ;
+                                        \buffer_data$next  = \$53 ;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_data  = \$55 ;
+                                        \buffer_data$next  = \$55 ;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_data  = data_in[23:0];
+                                        \buffer_data$next  = data_in[23:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$57 ;
+                                  \buffer_data$next  = \$57 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$59 ;
+                                  \buffer_data$next  = \$59 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$61 ;
+                                  \buffer_data$next  = \$61 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$63 ;
+                                  \buffer_data$next  = \$63 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$65 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_data  = \$67 ;
+                                  \buffer_data$next  = \$67 ;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_data  = \$69 ;
+                                  \buffer_data$next  = \$69 ;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_data  = \$71 ;
+                                  \buffer_data$next  = \$71 ;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_data  = \$73 ;
+                                  \buffer_data$next  = \$73 ;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_data  = data_in[23:0];
+                                  \buffer_data$next  = data_in[23:0];
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$75 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$77 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
+                        2'h1:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:127" */
+                        2'h2:
+                            /* empty */;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_data  = \$79 ;
+                            \buffer_data$next  = \$79 ;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_data  = 24'h000000;
+          \buffer_data$next  = 24'h000000;
     endcase
   end
   always @* begin
-    \$next\buffer_count  = buffer_count;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \buffer_count$next  = buffer_count;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$89 , \$83 , \$81  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$91 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
                                     3'h2:
-                                        \$next\buffer_count  = 2'h1;
+                                        \buffer_count$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\buffer_count  = 2'h2;
+                                        \buffer_count$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\buffer_count  = 2'h3;
+                                        \buffer_count$next  = 2'h3;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$93 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\buffer_count  = 2'h1;
+                                  \buffer_count$next  = 2'h1;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\buffer_count  = 2'h2;
+                                  \buffer_count$next  = 2'h2;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\buffer_count  = 2'h3;
+                                  \buffer_count$next  = 2'h3;
                             endcase
                       endcase
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$95 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$97 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:118" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:120" */
                         2'h1:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:127" */
                         2'h2:
-                            \$next\buffer_count  = 2'h0;
+                            \buffer_count$next  = 2'h0;
+                        /* src = "fix_0xff2.py:133" */
                         2'h3:
-                            \$next\buffer_count  = 2'h1;
+                            \buffer_count$next  = 2'h1;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer_count  = 2'h0;
+          \buffer_count$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\o_busy  = o_busy;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \o_busy$next  = o_busy;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$107 , \$101 , \$99  })
-            3'bzz1:
-              begin
-                \$next\o_busy  = 1'h0;
-                casez (\$109 )
-                  1'h1:
-                      casez (valid_in)
-                        1'h1:
-                          begin
-                            casez (buffer_count)
-                              2'h0:
-                                  casez (data_in_ctr)
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                              2'h1:
-                                  casez (data_in_ctr)
-                                    3'h3:
-                                        \$next\o_busy  = 1'h1;
-                                    3'h4:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                            casez (end_in)
-                              1'h1:
-                                  casez (\$115 )
-                                    1'h1:
-                                        /* empty */;
-                                    1'hz:
-                                        \$next\o_busy  = 1'h1;
-                                  endcase
-                            endcase
-                          end
-                      endcase
-                endcase
-              end
-            3'bz1z:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \o_busy$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
               begin
-                \$next\o_busy  = 1'h0;
+                \o_busy$next  = 1'h0;
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$121 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
               end
-            3'b1zz:
-                \$next\o_busy  = \$127 ;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \o_busy$next  = \$127 ;
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$129 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\o_busy  = 1'h1;
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$135 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\o_busy  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \o_busy$next  = 1'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$137 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$139 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$141 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\o_busy  = 1'h0;
+                            \o_busy$next  = 1'h0;
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\o_busy  = 1'h0;
+          \o_busy$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$151 , \$145 , \$143  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$153 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
                           begin
+                            (* src = "fix_0xff2.py:40" *)
                             casez (buffer_count)
+                              /* src = "fix_0xff2.py:42" */
                               2'h0:
+                                  (* src = "fix_0xff2.py:43" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:44" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:48" */
+                                    3'h3:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:54" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
+                              /* src = "fix_0xff2.py:67" */
                               2'h1:
+                                  (* src = "fix_0xff2.py:68" *)
                                   casez (data_in_ctr)
+                                    /* src = "fix_0xff2.py:69" */
+                                    3'h2:
+                                        /* empty */;
+                                    /* src = "fix_0xff2.py:75" */
                                     3'h3:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
+                                    /* src = "fix_0xff2.py:86" */
                                     3'h4:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$159 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\fsm_state  = 2'h2;
-                                    1'hz:
-                                        \$next\fsm_state  = 2'h1;
+                                        \fsm_state$next  = 2'h2;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \fsm_state$next  = 2'h1;
                                   endcase
                             endcase
                           end
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$165 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$167 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:48" */
+                              3'h3:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
+                              3'h2:
+                                  /* empty */;
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$173 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h2;
-                              1'hz:
-                                  \$next\fsm_state  = 2'h1;
+                                  \fsm_state$next  = 2'h2;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \fsm_state$next  = 2'h1;
                             endcase
                       endcase
                     end
                 endcase
           endcase
         end
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$175 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$177 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                     begin
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$179 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\fsm_state  = 2'h3;
+                                  \fsm_state$next  = 2'h3;
                             endcase
                       endcase
+                      (* src = "fix_0xff2.py:222" *)
                       casez (\$181 )
+                        /* src = "fix_0xff2.py:222" */
                         1'h1:
-                            \$next\fsm_state  = 2'h0;
+                            \fsm_state$next  = 2'h0;
                       endcase
                     end
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$183 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h3;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_out$next  = end_out;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$193 , \$187 , \$185  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$195 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$201 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
-                                        \$next\end_out  = 1'h1;
+                                        \end_out$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:188" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$207 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$209 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$211 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
+                      (* src = "fix_0xff2.py:139" *)
                       casez (end_reg)
+                        /* src = "fix_0xff2.py:139" */
                         1'h1:
+                            (* src = "fix_0xff2.py:140" *)
                             casez (\$213 )
+                              /* src = "fix_0xff2.py:140" */
                               1'h1:
-                                  \$next\end_out  = 1'h1;
+                                  \end_out$next  = 1'h1;
                             endcase
                       endcase
-                  1'hz:
-                      \$next\end_out  = end_out_reg;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \end_out$next  = end_out_reg;
                 endcase
           endcase
+      /* src = "fix_0xff2.py:233" */
+      /* \nmigen.decoding  = "PRE_END/2" */
       2'h2:
+          (* src = "fix_0xff2.py:234" *)
           casez (\$215 )
+            /* src = "fix_0xff2.py:234" */
             1'h1:
+                (* src = "fix_0xff2.py:235" *)
                 casez (data_out_valid)
+                  /* src = "fix_0xff2.py:235" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_reg  = end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \end_reg$next  = end_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
         begin
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$225 , \$219 , \$217  })
-            3'bzz1:
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                (* src = "fix_0xff2.py:185" *)
                 casez (\$227 )
+                  /* src = "fix_0xff2.py:185" */
                   1'h1:
+                      (* src = "fix_0xff2.py:39" *)
                       casez (valid_in)
+                        /* src = "fix_0xff2.py:39" */
                         1'h1:
+                            (* src = "fix_0xff2.py:101" *)
                             casez (end_in)
+                              /* src = "fix_0xff2.py:101" */
                               1'h1:
+                                  (* src = "fix_0xff2.py:102" *)
                                   casez (\$233 )
+                                    /* src = "fix_0xff2.py:102" */
                                     1'h1:
                                         /* empty */;
-                                    1'hz:
-                                        \$next\end_reg  = 1'h1;
+                                    /* src = "fix_0xff2.py:105" */
+                                    default:
+                                        \end_reg$next  = 1'h1;
                                   endcase
                             endcase
                       endcase
                 endcase
-            3'bz1z:
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$239 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
+          (* src = "fix_0xff2.py:214" *)
           casez (\$241 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:101" *)
                       casez (end_in)
+                        /* src = "fix_0xff2.py:101" */
                         1'h1:
+                            (* src = "fix_0xff2.py:102" *)
                             casez (\$247 )
+                              /* src = "fix_0xff2.py:102" */
                               1'h1:
                                   /* empty */;
-                              1'hz:
-                                  \$next\end_reg  = 1'h1;
+                              /* src = "fix_0xff2.py:105" */
+                              default:
+                                  \end_reg$next  = 1'h1;
                             endcase
                       endcase
                 endcase
           endcase
         end
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_reg  = 1'h0;
+          \end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_valid  = data_out_valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \data_out_valid$next  = data_out_valid;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:184" *)
           casez ({ \$257 , \$251 , \$249  })
-            3'bzz1:
-                \$next\data_out_valid  = 1'h0;
-            3'bz1z:
-                \$next\data_out_valid  = 1'h0;
-            3'b1zz:
-                \$next\data_out_valid  = \$263 ;
-          endcase
+            /* src = "fix_0xff2.py:184" */
+            3'b??1:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:199" */
+            3'b?1?:
+                \data_out_valid$next  = 1'h0;
+            /* src = "fix_0xff2.py:208" */
+            3'b1??:
+                \data_out_valid$next  = \$263 ;
+          endcase
+      /* src = "fix_0xff2.py:217" */
+      /* \nmigen.decoding  = "CLEAN/1" */
       2'h1:
+          (* src = "fix_0xff2.py:218" *)
           casez (\$265 )
+            /* src = "fix_0xff2.py:218" */
             1'h1:
+                (* src = "fix_0xff2.py:219" *)
                 casez (\$267 )
+                  /* src = "fix_0xff2.py:219" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\data_out_valid  = 1'h0;
+                  /* src = "fix_0xff2.py:225" */
+                  default:
+                      \data_out_valid$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_valid  = 1'h0;
+          \data_out_valid$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\data_out_reg  = data_out_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$139 ) begin end
+    \data_out_reg$next  = data_out_reg;
+    (* src = "fix_0xff2.py:182" *)
     casez (fsm_state)
+      /* src = "fix_0xff2.py:183" */
+      /* \nmigen.decoding  = "NORMAL/0" */
       2'h0:
+          (* src = "fix_0xff2.py:214" *)
           casez (\$269 )
+            /* src = "fix_0xff2.py:214" */
             1'h1:
+                (* src = "fix_0xff2.py:39" *)
                 casez (valid_in)
+                  /* src = "fix_0xff2.py:39" */
                   1'h1:
+                      (* src = "fix_0xff2.py:40" *)
                       casez (buffer_count)
+                        /* src = "fix_0xff2.py:42" */
                         2'h0:
+                            (* src = "fix_0xff2.py:43" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:44" */
                               3'h2:
-                                  \$next\data_out_reg  = data_in[15:0];
+                                  \data_out_reg$next  = data_in[15:0];
+                              /* src = "fix_0xff2.py:48" */
                               3'h3:
-                                  \$next\data_out_reg  = data_in[23:8];
+                                  \data_out_reg$next  = data_in[23:8];
+                              /* src = "fix_0xff2.py:54" */
                               3'h4:
-                                  \$next\data_out_reg  = data_in[31:16];
+                                  \data_out_reg$next  = data_in[31:16];
                             endcase
+                        /* src = "fix_0xff2.py:67" */
                         2'h1:
+                            (* src = "fix_0xff2.py:68" *)
                             casez (data_in_ctr)
+                              /* src = "fix_0xff2.py:69" */
                               3'h2:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[15:8] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[15:8] };
+                              /* src = "fix_0xff2.py:75" */
                               3'h3:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[23:16] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[23:16] };
+                              /* src = "fix_0xff2.py:86" */
                               3'h4:
-                                  \$next\data_out_reg  = { buffer_data[7:0], data_in[31:24] };
+                                  \data_out_reg$next  = { buffer_data[7:0], data_in[31:24] };
                             endcase
                       endcase
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out_reg  = 16'h0000;
+          \data_out_reg$next  = 16'h0000;
     endcase
   end
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
 (* generator = "nMigen" *)
-module force_end(allowed_cycles, rst, clk, fend, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.force_end" *)
+module force_end(rst, allowed_cycles, valid_in, fend, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$140  = 0;
+  (* src = "force_end.py:61" *)
   wire \$1 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$3 ;
+  (* src = "force_end.py:60" *)
   wire [25:0] \$4 ;
-  (* src = "force_end.py:51" *)
-  reg [24:0] \$next\counter ;
-  (* src = "force_end.py:41" *)
-  reg \$next\fend ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
   (* src = "force_end.py:39" *)
   input [23:0] allowed_cycles;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire [23:0] allowed_cycles;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 25'h0000000 *)
+  wire clk;
   (* src = "force_end.py:51" *)
   reg [24:0] counter = 25'h0000000;
-  (* init = 1'h0 *)
+  (* src = "force_end.py:51" *)
+  reg [24:0] \counter$next ;
   (* src = "force_end.py:41" *)
   output fend;
   reg fend = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "force_end.py:41" *)
+  reg \fend$next ;
+  (* src = "force_end.py:53" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "force_end.py:53" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "force_end.py:38" *)
   input valid_in;
+  wire valid_in;
   assign \$1  = counter == (* src = "force_end.py:61" *) allowed_cycles;
   assign \$4  = counter + (* src = "force_end.py:60" *) 1'h1;
   always @(posedge clk)
-      fend <= \$next\fend ;
+    fend <= \fend$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "force_end.py:56" *)
           casez (valid_in)
+            /* src = "force_end.py:56" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
+          (* src = "force_end.py:61" *)
           casez (\$1 )
+            /* src = "force_end.py:61" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
+                \fsm_state$next  = 2'h2;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \counter$next  = counter;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
       2'h1:
-          \$next\counter  = \$3 [24:0];
+          \counter$next  = \$4 [24:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 25'h0000000;
+          \counter$next  = 25'h0000000;
     endcase
   end
   always @* begin
-    \$next\fend  = fend;
+    if (\$auto$verilog_backend.cc:2184:dump_module$140 ) begin end
+    \fend$next  = fend;
+    (* src = "force_end.py:53" *)
     casez (fsm_state)
+      /* src = "force_end.py:55" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "force_end.py:59" */
+      /* \nmigen.decoding  = "COUNTING/1" */
+      2'h1:
+          /* empty */;
+      /* src = "force_end.py:64" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\fend  = 1'h1;
+          \fend$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fend  = 1'h0;
+          \fend$next  = 1'h0;
     endcase
   end
   assign \$3  = \$4 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.input_handler" *)
+module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$141  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [55:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [6:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [7:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [6:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [6:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [6:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [6:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [6:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [7:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [6:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [6:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [6:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [6:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [5:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [5:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [40:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [14:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [3:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [3:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [14:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [5:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [5:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 6'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [5:0] buff_consum;
   reg [5:0] buff_consum = 6'h00;
-  (* init = 6'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [5:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [5:0] buff_free = 6'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [5:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 41'h00000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [40:0] buffer;
   reg [40:0] buffer = 41'h00000000000;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [40:0] \buffer$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [14:0] enc_in;
-  (* init = 15'h0000 *)
+  wire [14:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [14:0] enc_in_buff = 15'h0000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [14:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [3:0] enc_in_ctr;
-  (* init = 4'h0 *)
+  wire [3:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [3:0] enc_in_ctr_buff = 4'h0;
-  (* init = 4'h0 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [3:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [3:0] enc_in_ctr_reg = 4'h0;
-  (* init = 15'h0000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [3:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [14:0] enc_in_reg = 15'h0000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [14:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [5:0] new_buff_consum;
+  reg [5:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [5:0] new_buff_free;
+  reg [5:0] new_buff_free;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -4405,409 +6277,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 4'h0;
+          \enc_in_ctr_reg$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
-          endcase
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
+          endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [40:0];
+          \buffer$next  = \$30 [40:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [40:0];
+                      \buffer$next  = \$37 [40:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 41'h00000000000;
+          \buffer$next  = 41'h00000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 6'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    new_buff_free = 6'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [5:0];
-      1'hz:
+          new_buff_free = \$46 [5:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [5:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [5:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [5:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [5:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 6'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    new_buff_consum = 6'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [5:0];
-      1'hz:
+          new_buff_consum = \$59 [5:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [5:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [5:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [5:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [5:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 6'h00;
+          \buff_consum$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 6'h29;
+          \buff_free$next  = 6'h29;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 6'h00;
+          \buff_free$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 15'h0000;
+          \enc_in_buff$next  = 15'h0000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 4'h0;
+          \enc_in_ctr_buff$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$141 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 15'h0000;
+          \enc_in_reg$next  = 15'h0000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -4818,80 +6959,16 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
 (* generator = "nMigen" *)
-module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, enc_out, enc_out_ctr, valid_out, end_out, end_of_frame, fend_out, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, valid_in);
-  (* src = "core_axi_lite.py:101" *)
-  reg [32:0] \$next\core_axi_lite_rp_data ;
-  (* src = "difference.py:71" *)
-  reg \$next\difference_end_in ;
-  (* src = "difference.py:55" *)
-  reg [11:0] \$next\difference_pixel_in ;
-  (* src = "difference.py:58" *)
-  reg [11:0] \$next\difference_predic_in ;
-  (* src = "difference.py:67" *)
-  reg \$next\difference_valid_in ;
-  (* src = "integration_1.py:26" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "integration_1.py:27" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "encode.py:191" *)
-  reg \$next\encode_end_in ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [3:0] \$next\encode_mem_r_addr ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [3:0] \$next\encode_mem_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [32:0] \$next\encode_mem_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\encode_mem_w_en ;
-  (* src = "encode.py:179" *)
-  reg [4:0] \$next\encode_ssss ;
-  (* src = "encode.py:177" *)
-  reg [11:0] \$next\encode_val_in ;
-  (* src = "encode.py:187" *)
-  reg \$next\encode_valid_in ;
-  (* src = "integration_1.py:34" *)
-  reg \$next\end_out ;
-  (* src = "integration_1.py:35" *)
-  reg \$next\fend_out ;
-  (* src = "force_end.py:39" *)
-  reg [23:0] \$next\force_end_allowed_cycles ;
-  (* src = "force_end.py:38" *)
-  reg \$next\force_end_valid_in ;
-  (* src = "normalize.py:207" *)
-  reg \$next\normalize_end_in ;
-  (* src = "normalize.py:194" *)
-  reg [12:0] \$next\normalize_val_in ;
-  (* src = "normalize.py:203" *)
-  reg \$next\normalize_valid_in ;
-  (* src = "normalize.py:196" *)
-  reg [12:0] \$next\normalize_vals_in_mns ;
-  (* src = "predictor_p1_c4_pix1_2.py:80" *)
-  reg \$next\predictor_end_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:73" *)
-  reg \$next\predictor_new_row ;
-  (* src = "predictor_p1_c4_pix1_2.py:64" *)
-  reg [11:0] \$next\predictor_pixel_in ;
-  (* src = "predictor_p1_c4_pix1_2.py:76" *)
-  reg \$next\predictor_valid_in ;
-  (* src = "signals.py:41" *)
-  reg [15:0] \$next\signals_height ;
-  (* src = "signals.py:43" *)
-  reg \$next\signals_new_input ;
-  (* src = "signals.py:42" *)
-  reg [15:0] \$next\signals_width ;
-  (* src = "integration_1.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1" *)
+module integration_1(full_clk, rst, full_rst, fend_out, end_of_frame, pixel_in, valid_in, enc_out, enc_out_ctr, valid_out, end_out, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready
+, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "core_axi_lite.py:84" *)
   wire [23:0] core_axi_lite_allowed_cycles;
   (* src = "core_axi_lite.py:80" *)
@@ -4924,10 +7001,12 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire difference_valid_in;
   (* src = "difference.py:68" *)
   wire difference_valid_out;
-  (* src = "integration_1.py:26" *)
-  output [27:0] enc_out;
   (* src = "integration_1.py:27" *)
+  output [27:0] enc_out;
+  wire [27:0] enc_out;
+  (* src = "integration_1.py:28" *)
   output [4:0] enc_out_ctr;
+  wire [4:0] enc_out_ctr;
   (* src = "encode.py:184" *)
   wire [4:0] encode_enc_ctr;
   (* src = "encode.py:182" *)
@@ -4936,15 +7015,15 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire encode_end_in;
   (* src = "encode.py:192" *)
   wire encode_end_out;
-  (* src = "nmigen/hdl/mem.py:81" *)
+  (* src = "encode.py:201" *)
   wire [3:0] encode_mem_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
+  (* src = "encode.py:201" *)
   wire [32:0] encode_mem_r_data;
-  (* src = "nmigen/hdl/mem.py:146" *)
+  (* src = "encode.py:200" *)
   wire [3:0] encode_mem_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
+  (* src = "encode.py:200" *)
   wire [32:0] encode_mem_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
+  (* src = "encode.py:200" *)
   wire encode_mem_w_en;
   (* src = "encode.py:179" *)
   wire [4:0] encode_ssss;
@@ -4956,10 +7035,13 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire encode_valid_out;
   (* src = "signals.py:45" *)
   output end_of_frame;
-  (* src = "integration_1.py:34" *)
-  output end_out;
+  wire end_of_frame;
   (* src = "integration_1.py:35" *)
+  output end_out;
+  wire end_out;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "force_end.py:39" *)
   wire [23:0] force_end_allowed_cycles;
   (* src = "force_end.py:41" *)
@@ -4968,8 +7050,10 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire force_end_valid_in;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "normalize.py:207" *)
   wire normalize_end_in;
   (* src = "normalize.py:208" *)
@@ -4986,8 +7070,9 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire normalize_valid_out;
   (* src = "normalize.py:196" *)
   wire [12:0] normalize_vals_in_mns;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   wire predictor_end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
@@ -5006,40 +7091,58 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire predictor_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire rst;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
   output [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "signals.py:41" *)
   wire [15:0] signals_height;
   (* src = "signals.py:43" *)
@@ -5048,10 +7151,12 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
   wire signals_new_row;
   (* src = "signals.py:42" *)
   wire [15:0] signals_width;
-  (* src = "integration_1.py:30" *)
-  input valid_in;
   (* src = "integration_1.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_1.py:32" *)
   output valid_out;
+  wire valid_out;
   core_axi_lite core_axi_lite (
     .allowed_cycles(core_axi_lite_allowed_cycles),
     .clk(clk),
@@ -5152,250 +7257,99 @@ module integration_1(pixel_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s
     .rst(rst),
     .width(signals_width)
   );
-  always @* begin
-    \$next\signals_height  = 16'h0000;
-    \$next\signals_height  = core_axi_lite_height;
-  end
-  always @* begin
-    \$next\signals_width  = 16'h0000;
-    \$next\signals_width  = core_axi_lite_width;
-  end
-  always @* begin
-    \$next\difference_pixel_in  = 12'h000;
-    \$next\difference_pixel_in  = predictor_pixel_out;
-  end
-  always @* begin
-    \$next\difference_predic_in  = 12'h000;
-    \$next\difference_predic_in  = predictor_predic_out;
-  end
-  always @* begin
-    \$next\difference_valid_in  = 1'h0;
-    \$next\difference_valid_in  = predictor_valid_out;
-  end
-  always @* begin
-    \$next\difference_end_in  = 1'h0;
-    \$next\difference_end_in  = predictor_end_out;
-  end
-  always @* begin
-    \$next\normalize_val_in  = 13'h0000;
-    \$next\normalize_val_in  = difference_val_out;
-  end
-  always @* begin
-    \$next\normalize_vals_in_mns  = 13'h0000;
-    \$next\normalize_vals_in_mns  = \difference_val_out$1 ;
-  end
-  always @* begin
-    \$next\normalize_valid_in  = 1'h0;
-    \$next\normalize_valid_in  = difference_valid_out;
-  end
-  always @* begin
-    \$next\normalize_end_in  = 1'h0;
-    \$next\normalize_end_in  = difference_end_out;
-  end
-  always @* begin
-    \$next\encode_val_in  = 12'h000;
-    \$next\encode_val_in  = normalize_val_out;
-  end
-  always @* begin
-    \$next\encode_ssss  = 5'h00;
-    \$next\encode_ssss  = normalize_ssss;
-  end
-  always @* begin
-    \$next\force_end_allowed_cycles  = 24'h000000;
-    \$next\force_end_allowed_cycles  = core_axi_lite_allowed_cycles;
-  end
-  always @* begin
-    \$next\encode_valid_in  = 1'h0;
-    \$next\encode_valid_in  = normalize_valid_out;
-  end
-  always @* begin
-    \$next\encode_end_in  = 1'h0;
-    \$next\encode_end_in  = normalize_end_out;
-  end
-  always @* begin
-    \$next\core_axi_lite_rp_data  = 33'h000000000;
-    \$next\core_axi_lite_rp_data  = encode_mem_r_data;
-  end
-  always @* begin
-    \$next\encode_mem_r_addr  = 4'h0;
-    \$next\encode_mem_r_addr  = core_axi_lite_rp_addr[3:0];
-  end
-  always @* begin
-    \$next\encode_mem_w_addr  = 4'h0;
-    \$next\encode_mem_w_addr  = core_axi_lite_wp_addr[3:0];
-  end
-  always @* begin
-    \$next\encode_mem_w_data  = 33'h000000000;
-    \$next\encode_mem_w_data  = core_axi_lite_wp_data;
-  end
-  always @* begin
-    \$next\encode_mem_w_en  = 1'h0;
-    \$next\encode_mem_w_en  = core_axi_lite_wp_en;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = encode_enc_out;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = encode_enc_ctr;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = encode_valid_out;
-  end
-  always @* begin
-    \$next\force_end_valid_in  = 1'h0;
-    \$next\force_end_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = encode_end_out;
-  end
-  always @* begin
-    \$next\fend_out  = 1'h0;
-    \$next\fend_out  = force_end_fend;
-  end
-  always @* begin
-    \$next\signals_new_input  = 1'h0;
-    \$next\signals_new_input  = valid_in;
-  end
-  always @* begin
-    \$next\predictor_pixel_in  = 12'h000;
-    \$next\predictor_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\predictor_new_row  = 1'h0;
-    \$next\predictor_new_row  = signals_new_row;
-  end
-  always @* begin
-    \$next\predictor_end_in  = 1'h0;
-    \$next\predictor_end_in  = end_of_frame;
-  end
-  always @* begin
-    \$next\predictor_valid_in  = 1'h0;
-    \$next\predictor_valid_in  = valid_in;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign encode_mem_w_en = \$next\encode_mem_w_en ;
-  assign encode_mem_w_data = \$next\encode_mem_w_data ;
-  assign encode_mem_w_addr = \$next\encode_mem_w_addr ;
-  assign encode_mem_r_addr = \$next\encode_mem_r_addr ;
-  assign core_axi_lite_rp_data = \$next\core_axi_lite_rp_data ;
-  assign encode_end_in = \$next\encode_end_in ;
-  assign encode_valid_in = \$next\encode_valid_in ;
-  assign encode_ssss = \$next\encode_ssss ;
-  assign encode_val_in = \$next\encode_val_in ;
-  assign normalize_end_in = \$next\normalize_end_in ;
-  assign normalize_valid_in = \$next\normalize_valid_in ;
-  assign normalize_vals_in_mns = \$next\normalize_vals_in_mns ;
-  assign normalize_val_in = \$next\normalize_val_in ;
-  assign difference_end_in = \$next\difference_end_in ;
-  assign difference_valid_in = \$next\difference_valid_in ;
-  assign difference_predic_in = \$next\difference_predic_in ;
-  assign difference_pixel_in = \$next\difference_pixel_in ;
-  assign predictor_valid_in = \$next\predictor_valid_in ;
-  assign predictor_end_in = \$next\predictor_end_in ;
-  assign predictor_new_row = \$next\predictor_new_row ;
-  assign predictor_pixel_in = \$next\predictor_pixel_in ;
-  assign signals_new_input = \$next\signals_new_input ;
-  assign fend_out = \$next\fend_out ;
-  assign force_end_valid_in = \$next\force_end_valid_in ;
-  assign force_end_allowed_cycles = \$next\force_end_allowed_cycles ;
-  assign signals_width = \$next\signals_width ;
-  assign signals_height = \$next\signals_height ;
+  assign end_out = encode_end_out;
+  assign valid_out = encode_valid_out;
+  assign enc_out_ctr = encode_enc_ctr;
+  assign enc_out = encode_enc_out;
+  assign encode_mem_w_en = core_axi_lite_wp_en;
+  assign encode_mem_w_data = core_axi_lite_wp_data;
+  assign encode_mem_w_addr = core_axi_lite_wp_addr[3:0];
+  assign encode_mem_r_addr = core_axi_lite_rp_addr[3:0];
+  assign core_axi_lite_rp_data = encode_mem_r_data;
+  assign encode_end_in = normalize_end_out;
+  assign encode_valid_in = normalize_valid_out;
+  assign encode_ssss = normalize_ssss;
+  assign encode_val_in = normalize_val_out;
+  assign normalize_end_in = difference_end_out;
+  assign normalize_valid_in = difference_valid_out;
+  assign normalize_vals_in_mns = \difference_val_out$1 ;
+  assign normalize_val_in = difference_val_out;
+  assign difference_end_in = predictor_end_out;
+  assign difference_valid_in = predictor_valid_out;
+  assign difference_predic_in = predictor_predic_out;
+  assign difference_pixel_in = predictor_pixel_out;
+  assign predictor_valid_in = valid_in;
+  assign predictor_end_in = end_of_frame;
+  assign predictor_new_row = signals_new_row;
+  assign predictor_pixel_in = pixel_in;
+  assign signals_new_input = valid_in;
+  assign fend_out = force_end_fend;
+  assign force_end_valid_in = valid_in;
+  assign force_end_allowed_cycles = core_axi_lite_allowed_cycles;
+  assign signals_width = core_axi_lite_width;
+  assign signals_height = core_axi_lite_height;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
 (* generator = "nMigen" *)
-module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, nready, enc_out, enc_out_ctr, valid_out, out_end, fend_out, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2" *)
+module integration_2(full_clk, rst, full_rst, fend_out, pixel_in, valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready
+, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$142  = 0;
+  (* src = "integration_2.py:62" *)
   wire \$1 ;
+  (* src = "integration_2.py:61" *)
   wire \$11 ;
+  (* src = "integration_2.py:61" *)
   wire \$13 ;
+  (* src = "integration_2.py:61" *)
   wire \$15 ;
+  (* src = "integration_2.py:62" *)
   wire \$17 ;
+  (* src = "integration_2.py:62" *)
   wire \$19 ;
+  (* src = "integration_2.py:62" *)
   wire \$21 ;
+  (* src = "integration_2.py:62" *)
   wire \$23 ;
+  (* src = "integration_2.py:62" *)
   wire \$25 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$27 ;
+  (* src = "integration_2.py:69" *)
   wire [3:0] \$28 ;
+  (* src = "integration_2.py:62" *)
   wire \$3 ;
+  (* src = "integration_2.py:70" *)
   wire \$30 ;
+  (* src = "integration_2.py:75" *)
   wire \$32 ;
+  (* src = "integration_2.py:75" *)
   wire \$34 ;
+  (* src = "integration_2.py:75" *)
   wire \$36 ;
+  (* src = "integration_2.py:75" *)
   wire \$38 ;
+  (* src = "integration_2.py:75" *)
   wire \$40 ;
+  (* src = "integration_2.py:80" *)
   wire \$42 ;
+  (* src = "integration_2.py:80" *)
   wire \$44 ;
+  (* src = "integration_2.py:80" *)
   wire \$46 ;
+  (* src = "converter_fifo.py:65" *)
   wire [27:0] \$48 ;
+  (* src = "integration_2.py:62" *)
   wire \$5 ;
+  (* src = "converter_fifo.py:66" *)
   wire [4:0] \$50 ;
+  (* src = "integration_2.py:62" *)
   wire \$7 ;
+  (* src = "integration_2.py:62" *)
   wire \$9 ;
-  (* src = "converter.py:70" *)
-  reg \$next\converter_close_full ;
-  (* src = "converter.py:60" *)
-  reg [27:0] \$next\converter_enc_out ;
-  (* src = "converter.py:61" *)
-  reg [4:0] \$next\converter_enc_out_ctr ;
-  (* src = "converter_fifo.py:56" *)
-  reg [14:0] \$next\converter_fifo_enc_in ;
-  (* src = "converter_fifo.py:57" *)
-  reg [3:0] \$next\converter_fifo_enc_in_ctr ;
-  (* src = "converter_fifo.py:58" *)
-  reg \$next\converter_fifo_in_end ;
-  (* src = "converter_fifo.py:64" *)
-  reg \$next\converter_fifo_latch_output ;
-  (* src = "converter_fifo.py:59" *)
-  reg \$next\converter_fifo_valid_in ;
-  (* src = "converter.py:62" *)
-  reg \$next\converter_out_end ;
-  (* src = "converter.py:63" *)
-  reg \$next\converter_valid_out ;
-  (* src = "integration_2.py:24" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "integration_2.py:25" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "integration_1.py:23" *)
-  reg [11:0] \$next\integration_1_pixel_in ;
-  (* src = "integration_1.py:30" *)
-  reg \$next\integration_1_valid_in ;
-  (* src = "lj92_pipeline_fifo.py:54" *)
-  reg [27:0] \$next\lj92_pipeline_fifo_enc_in ;
-  (* src = "lj92_pipeline_fifo.py:55" *)
-  reg [4:0] \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  (* src = "lj92_pipeline_fifo.py:56" *)
-  reg \$next\lj92_pipeline_fifo_in_end ;
-  (* src = "lj92_pipeline_fifo.py:59" *)
-  reg \$next\lj92_pipeline_fifo_latch_output ;
-  (* src = "lj92_pipeline_fifo.py:57" *)
-  reg \$next\lj92_pipeline_fifo_valid_in ;
-  (* src = "integration_2.py:29" *)
-  reg \$next\nready ;
-  (* src = "integration_2.py:59" *)
-  reg \$next\nready_end ;
-  (* src = "integration_2.py:56" *)
-  reg \$next\nready_end_reg ;
-  (* src = "integration_2.py:57" *)
-  reg \$next\nready_end_wire ;
-  (* src = "integration_2.py:66" *)
-  reg \$next\nready_reset ;
-  (* src = "integration_2.py:67" *)
-  reg [2:0] \$next\nready_reset_counter ;
-  (* src = "integration_2.py:73" *)
-  reg \$next\nready_signal ;
-  (* src = "integration_2.py:32" *)
-  reg \$next\out_end ;
-  (* src = "integration_2.py:31" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "converter.py:70" *)
   wire converter_close_full;
   (* src = "converter.py:66" *)
@@ -5436,32 +7390,38 @@ module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_
   wire converter_valid_in;
   (* src = "converter.py:63" *)
   wire converter_valid_out;
-  (* src = "integration_2.py:24" *)
-  output [27:0] enc_out;
   (* src = "integration_2.py:25" *)
+  output [27:0] enc_out;
+  wire [27:0] enc_out;
+  (* src = "integration_2.py:26" *)
   output [4:0] enc_out_ctr;
-  (* src = "integration_1.py:35" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_1.py:26" *)
-  wire [27:0] integration_1_enc_out;
+  wire full_rst;
   (* src = "integration_1.py:27" *)
+  wire [27:0] integration_1_enc_out;
+  (* src = "integration_1.py:28" *)
   wire [4:0] integration_1_enc_out_ctr;
   (* src = "signals.py:45" *)
   wire integration_1_end_of_frame;
-  (* src = "integration_1.py:34" *)
+  (* src = "integration_1.py:35" *)
   wire integration_1_end_out;
-  (* src = "integration_1.py:23" *)
+  (* src = "integration_1.py:24" *)
   wire [11:0] integration_1_pixel_in;
-  (* src = "integration_1.py:30" *)
-  wire integration_1_valid_in;
   (* src = "integration_1.py:31" *)
+  wire integration_1_valid_in;
+  (* src = "integration_1.py:32" *)
   wire integration_1_valid_out;
-  (* src = "integration_2.py:26" *)
+  (* src = "integration_2.py:27" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:67" *)
   wire lj92_pipeline_fifo_close_full;
   (* src = "lj92_pipeline_fifo.py:54" *)
@@ -5482,101 +7442,128 @@ module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_
   wire lj92_pipeline_fifo_valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   wire lj92_pipeline_fifo_valid_out;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   output nready;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:59" *)
+  wire nready;
+  (* src = "integration_2.py:60" *)
   reg nready_end = 1'h0;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:56" *)
+  (* src = "integration_2.py:60" *)
+  reg \nready_end$next ;
+  (* src = "integration_2.py:57" *)
   reg nready_end_reg = 1'h0;
   (* src = "integration_2.py:57" *)
-  wire nready_end_wire;
-  (* init = 1'h0 *)
-  (* src = "integration_2.py:66" *)
+  reg \nready_end_reg$next ;
+  (* src = "integration_2.py:58" *)
+  reg nready_end_wire;
+  (* src = "integration_2.py:67" *)
   reg nready_reset = 1'h0;
-  (* init = 3'h0 *)
   (* src = "integration_2.py:67" *)
+  reg \nready_reset$next ;
+  (* src = "integration_2.py:68" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:73" *)
+  (* src = "integration_2.py:68" *)
+  reg [2:0] \nready_reset_counter$next ;
+  (* src = "integration_2.py:74" *)
   wire nready_signal;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   output out_end;
-  (* src = "integration_2.py:22" *)
+  wire out_end;
+  (* src = "integration_2.py:23" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire rst;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
   output [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__wready;
-  (* src = "integration_2.py:30" *)
-  input valid_in;
+  wire s_axi_wo__wready;
   (* src = "integration_2.py:31" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_2.py:32" *)
   output valid_out;
-  assign \$9  = \$5  & (* src = "integration_2.py:61" *) \$7 ;
-  assign \$11  = nready_end_wire == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$13  = nready_end_reg == (* src = "integration_2.py:60" *) 1'h1;
-  assign \$15  = \$11  | (* src = "integration_2.py:60" *) \$13 ;
-  assign \$17  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$1  = integration_1_end_of_frame == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$19  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$21  = \$17  & (* src = "integration_2.py:61" *) \$19 ;
-  assign \$23  = nready == (* src = "integration_2.py:61" *) 1'h0;
-  assign \$25  = \$21  & (* src = "integration_2.py:61" *) \$23 ;
-  assign \$28  = nready_reset_counter + (* src = "integration_2.py:68" *) 1'h1;
-  assign \$30  = nready_reset_counter == (* src = "integration_2.py:69" *) 3'h7;
-  assign \$32  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$34  = nready_end == (* src = "integration_2.py:74" *) 1'h1;
-  assign \$36  = \$32  | (* src = "integration_2.py:74" *) \$34 ;
-  assign \$38  = nready_reset == (* src = "integration_2.py:74" *) 1'h0;
-  assign \$3  = valid_in == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$40  = \$36  | (* src = "integration_2.py:74" *) \$38 ;
-  assign \$42  = valid_in == (* src = "integration_2.py:79" *) 1'h1;
-  assign \$44  = nready_signal == (* src = "integration_2.py:79" *) 1'h0;
-  assign \$46  = \$42  & (* src = "integration_2.py:79" *) \$44 ;
+  wire valid_out;
+  assign \$9  = \$5  & (* src = "integration_2.py:62" *) \$7 ;
+  assign \$11  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$13  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
+  assign \$15  = \$11  | (* src = "integration_2.py:61" *) \$13 ;
+  assign \$17  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$1  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$19  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$21  = \$17  & (* src = "integration_2.py:62" *) \$19 ;
+  assign \$23  = nready == (* src = "integration_2.py:62" *) 1'h0;
+  assign \$25  = \$21  & (* src = "integration_2.py:62" *) \$23 ;
+  assign \$28  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
+  assign \$30  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
+  assign \$32  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$34  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
+  assign \$36  = \$32  | (* src = "integration_2.py:75" *) \$34 ;
+  assign \$38  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
+  assign \$3  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
+  assign \$40  = \$36  | (* src = "integration_2.py:75" *) \$38 ;
+  assign \$42  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
+  assign \$44  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
+  assign \$46  = \$42  & (* src = "integration_2.py:80" *) \$44 ;
   assign \$48  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$50  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = \$1  & (* src = "integration_2.py:61" *) \$3 ;
-  assign \$7  = nready == (* src = "integration_2.py:61" *) 1'h0;
+  assign \$5  = \$1  & (* src = "integration_2.py:62" *) \$3 ;
+  assign \$7  = nready == (* src = "integration_2.py:62" *) 1'h0;
   always @(posedge clk)
-      nready_reset <= \$next\nready_reset ;
+    nready_reset <= \nready_reset$next ;
   always @(posedge clk)
-      nready_reset_counter <= \$next\nready_reset_counter ;
+    nready_reset_counter <= \nready_reset_counter$next ;
   always @(posedge clk)
-      nready_end_reg <= \$next\nready_end_reg ;
+    nready_end_reg <= \nready_end_reg$next ;
   always @(posedge clk)
-      nready_end <= \$next\nready_end ;
+    nready_end <= \nready_end$next ;
   converter converter (
     .clk(clk),
     .close_full(converter_close_full),
@@ -5651,271 +7638,196 @@ module integration_2(pixel_in, latch_output, rst, clk, s_axi_ri__arvalid, s_axi_
     .valid_out(lj92_pipeline_fifo_valid_out)
   );
   always @* begin
-    \$next\nready_end_wire  = 1'h0;
-    \$next\nready_end_wire  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    nready_end_wire = 1'h0;
+    (* src = "integration_2.py:62" *)
     casez (\$9 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_wire  = 1'h1;
+          nready_end_wire = 1'h1;
     endcase
   end
   always @* begin
-    \$next\nready_end  = nready_end;
-    \$next\nready_end  = \$15 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_end$next  = \$15 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end  = 1'h0;
+          \nready_end$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lj92_pipeline_fifo_valid_in  = 1'h0;
-    \$next\lj92_pipeline_fifo_valid_in  = integration_1_valid_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_in_end  = 1'h0;
-    \$next\lj92_pipeline_fifo_in_end  = integration_1_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h1;
-    \$next\nready  = nready_signal;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_latch_output  = 1'h0;
-    \$next\lj92_pipeline_fifo_latch_output  = converter_latch_output;
-  end
-  always @* begin
-    \$next\converter_enc_out  = 28'h0000000;
-    \$next\converter_enc_out  = lj92_pipeline_fifo_enc_out;
-  end
-  always @* begin
-    \$next\converter_enc_out_ctr  = 5'h00;
-    \$next\converter_enc_out_ctr  = lj92_pipeline_fifo_enc_out_ctr;
-  end
-  always @* begin
-    \$next\converter_out_end  = 1'h0;
-    \$next\converter_out_end  = lj92_pipeline_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_valid_out  = 1'h0;
-    \$next\converter_valid_out  = lj92_pipeline_fifo_valid_out;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in  = 15'h0000;
-    \$next\converter_fifo_enc_in  = converter_enc_in;
-  end
-  always @* begin
-    \$next\converter_fifo_enc_in_ctr  = 4'h0;
-    \$next\converter_fifo_enc_in_ctr  = converter_enc_in_ctr;
-  end
-  always @* begin
-    \$next\nready_end_reg  = nready_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_end_reg$next  = nready_end_reg;
+    (* src = "integration_2.py:62" *)
     casez (\$25 )
+      /* src = "integration_2.py:62" */
       1'h1:
-          \$next\nready_end_reg  = 1'h1;
+          \nready_end_reg$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_end_reg  = 1'h0;
+          \nready_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\converter_fifo_in_end  = 1'h0;
-    \$next\converter_fifo_in_end  = converter_in_end;
-  end
-  always @* begin
-    \$next\converter_fifo_valid_in  = 1'h0;
-    \$next\converter_fifo_valid_in  = converter_valid_in;
-  end
-  always @* begin
-    \$next\converter_close_full  = 1'h0;
-    \$next\converter_close_full  = converter_fifo_close_full;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = \$48 ;
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = \$50 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = converter_fifo_valid_out;
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = converter_fifo_out_end;
-  end
-  always @* begin
-    \$next\converter_fifo_latch_output  = 1'h0;
-    \$next\converter_fifo_latch_output  = latch_output;
-  end
-  always @* begin
-    \$next\nready_reset_counter  = nready_reset_counter;
-    \$next\nready_reset_counter  = \$27 [2:0];
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_reset_counter$next  = \$28 [2:0];
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset_counter  = 3'h0;
+          \nready_reset_counter$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\nready_reset  = nready_reset;
+    if (\$auto$verilog_backend.cc:2184:dump_module$142 ) begin end
+    \nready_reset$next  = nready_reset;
+    (* src = "integration_2.py:70" *)
     casez (\$30 )
+      /* src = "integration_2.py:70" */
       1'h1:
-          \$next\nready_reset  = 1'h1;
+          \nready_reset$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\nready_reset  = 1'h0;
+          \nready_reset$next  = 1'h0;
     endcase
   end
-  always @* begin
-    \$next\nready_signal  = 1'h0;
-    \$next\nready_signal  = \$40 ;
-  end
-  always @* begin
-    \$next\integration_1_pixel_in  = 12'h000;
-    \$next\integration_1_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_1_valid_in  = 1'h0;
-    \$next\integration_1_valid_in  = \$46 ;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in  = 28'h0000000;
-    \$next\lj92_pipeline_fifo_enc_in  = integration_1_enc_out;
-  end
-  always @* begin
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = 5'h00;
-    \$next\lj92_pipeline_fifo_enc_in_ctr  = integration_1_enc_out_ctr;
-  end
   assign \$27  = \$28 ;
-  assign converter_fifo_latch_output = \$next\converter_fifo_latch_output ;
-  assign out_end = \$next\out_end ;
-  assign valid_out = \$next\valid_out ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign converter_close_full = \$next\converter_close_full ;
-  assign converter_fifo_valid_in = \$next\converter_fifo_valid_in ;
-  assign converter_fifo_in_end = \$next\converter_fifo_in_end ;
-  assign converter_fifo_enc_in_ctr = \$next\converter_fifo_enc_in_ctr ;
-  assign converter_fifo_enc_in = \$next\converter_fifo_enc_in ;
-  assign converter_valid_out = \$next\converter_valid_out ;
-  assign converter_out_end = \$next\converter_out_end ;
-  assign converter_enc_out_ctr = \$next\converter_enc_out_ctr ;
-  assign converter_enc_out = \$next\converter_enc_out ;
-  assign lj92_pipeline_fifo_latch_output = \$next\lj92_pipeline_fifo_latch_output ;
-  assign nready = \$next\nready ;
-  assign lj92_pipeline_fifo_in_end = \$next\lj92_pipeline_fifo_in_end ;
-  assign lj92_pipeline_fifo_valid_in = \$next\lj92_pipeline_fifo_valid_in ;
-  assign lj92_pipeline_fifo_enc_in_ctr = \$next\lj92_pipeline_fifo_enc_in_ctr ;
-  assign lj92_pipeline_fifo_enc_in = \$next\lj92_pipeline_fifo_enc_in ;
-  assign integration_1_valid_in = \$next\integration_1_valid_in ;
-  assign integration_1_pixel_in = \$next\integration_1_pixel_in ;
-  assign nready_signal = \$next\nready_signal ;
-  assign nready_end_wire = \$next\nready_end_wire ;
+  assign converter_fifo_latch_output = latch_output;
+  assign out_end = converter_fifo_out_end;
+  assign valid_out = converter_fifo_valid_out;
+  assign enc_out_ctr = \$50 ;
+  assign enc_out = \$48 ;
+  assign converter_close_full = converter_fifo_close_full;
+  assign converter_fifo_valid_in = converter_valid_in;
+  assign converter_fifo_in_end = converter_in_end;
+  assign converter_fifo_enc_in_ctr = converter_enc_in_ctr;
+  assign converter_fifo_enc_in = converter_enc_in;
+  assign converter_valid_out = lj92_pipeline_fifo_valid_out;
+  assign converter_out_end = lj92_pipeline_fifo_out_end;
+  assign converter_enc_out_ctr = lj92_pipeline_fifo_enc_out_ctr;
+  assign converter_enc_out = lj92_pipeline_fifo_enc_out;
+  assign lj92_pipeline_fifo_latch_output = converter_latch_output;
+  assign nready = nready_signal;
+  assign lj92_pipeline_fifo_in_end = integration_1_end_out;
+  assign lj92_pipeline_fifo_valid_in = integration_1_valid_out;
+  assign lj92_pipeline_fifo_enc_in_ctr = integration_1_enc_out_ctr;
+  assign lj92_pipeline_fifo_enc_in = integration_1_enc_out;
+  assign integration_1_valid_in = \$46 ;
+  assign integration_1_pixel_in = pixel_in;
+  assign nready_signal = \$40 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
 (* generator = "nMigen" *)
-module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, full_rst, full_clk, data_out, valid_out, nready, fend_out, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, pixel_in);
-  (* src = "integration_3.py:25" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "integration_3.py:30" *)
-  reg \$next\end_out ;
-  (* src = "integration_2.py:26" *)
-  reg \$next\integration_2_latch_output ;
-  (* src = "integration_2.py:22" *)
-  reg [11:0] \$next\integration_2_pixel_in ;
-  (* src = "integration_2.py:30" *)
-  reg \$next\integration_2_valid_in ;
-  (* src = "integration_3.py:31" *)
-  reg \$next\nready ;
-  (* src = "integration_3.py:29" *)
-  reg \$next\valid_out ;
-  (* src = "vbits_to_cbits.py:335" *)
-  reg \$next\vbits_to_cbits_busy_in ;
-  (* src = "vbits_to_cbits.py:327" *)
-  reg [14:0] \$next\vbits_to_cbits_enc_in ;
-  (* src = "vbits_to_cbits.py:328" *)
-  reg [3:0] \$next\vbits_to_cbits_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:329" *)
-  reg \$next\vbits_to_cbits_in_end ;
-  (* src = "vbits_to_cbits.py:330" *)
-  reg \$next\vbits_to_cbits_valid_in ;
-  (* src = "integration_3.py:32" *)
+(* \nmigen.hierarchy  = "top.top_module.integration_3" *)
+module integration_3(full_clk, rst, full_rst, pixel_in, valid_in, busy_in, data_out, valid_out, end_out, fend_out, nready, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready
+, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, clk);
+  (* src = "integration_3.py:33" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* src = "integration_3.py:25" *)
+  wire clk;
+  (* src = "integration_3.py:26" *)
   output [15:0] data_out;
-  (* src = "integration_3.py:30" *)
+  wire [15:0] data_out;
+  (* src = "integration_3.py:31" *)
+  output end_out;
   wire end_out;
-  (* src = "integration_1.py:35" *)
+  (* src = "integration_1.py:36" *)
   output fend_out;
+  wire fend_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_2.py:24" *)
-  wire [27:0] integration_2_enc_out;
+  wire full_rst;
   (* src = "integration_2.py:25" *)
-  wire [4:0] integration_2_enc_out_ctr;
+  wire [27:0] integration_2_enc_out;
   (* src = "integration_2.py:26" *)
+  wire [4:0] integration_2_enc_out_ctr;
+  (* src = "integration_2.py:27" *)
   wire integration_2_latch_output;
-  (* src = "integration_2.py:29" *)
+  (* src = "integration_2.py:30" *)
   wire integration_2_nready;
-  (* src = "integration_2.py:32" *)
+  (* src = "integration_2.py:33" *)
   wire integration_2_out_end;
-  (* src = "integration_2.py:22" *)
+  (* src = "integration_2.py:23" *)
   wire [11:0] integration_2_pixel_in;
-  (* src = "integration_2.py:30" *)
-  wire integration_2_valid_in;
   (* src = "integration_2.py:31" *)
+  wire integration_2_valid_in;
+  (* src = "integration_2.py:32" *)
   wire integration_2_valid_out;
-  (* src = "integration_3.py:31" *)
+  (* src = "integration_3.py:32" *)
   output nready;
-  (* src = "integration_3.py:22" *)
+  wire nready;
+  (* src = "integration_3.py:23" *)
   input [11:0] pixel_in;
+  wire [11:0] pixel_in;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire rst;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
   output [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__wready;
-  (* src = "integration_3.py:28" *)
-  input valid_in;
+  wire s_axi_wo__wready;
   (* src = "integration_3.py:29" *)
+  input valid_in;
+  wire valid_in;
+  (* src = "integration_3.py:30" *)
   output valid_out;
+  wire valid_out;
   (* src = "vbits_to_cbits.py:335" *)
   wire vbits_to_cbits_busy_in;
   (* src = "vbits_to_cbits.py:332" *)
@@ -5979,705 +7891,809 @@ module integration_3(valid_in, busy_in, rst, clk, s_axi_ri__arvalid, s_axi_wi__a
     .valid_in(vbits_to_cbits_valid_in),
     .valid_out(vbits_to_cbits_valid_out)
   );
-  always @* begin
-    \$next\integration_2_pixel_in  = 12'h000;
-    \$next\integration_2_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_2_valid_in  = 1'h0;
-    \$next\integration_2_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = vbits_to_cbits_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_2_nready;
-  end
-  always @* begin
-    \$next\integration_2_latch_output  = 1'h0;
-    \$next\integration_2_latch_output  = vbits_to_cbits_latch_input;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in  = 15'h0000;
-    \$next\vbits_to_cbits_enc_in  = integration_2_enc_out[14:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_enc_in_ctr  = 4'h0;
-    \$next\vbits_to_cbits_enc_in_ctr  = integration_2_enc_out_ctr[3:0];
-  end
-  always @* begin
-    \$next\vbits_to_cbits_in_end  = 1'h0;
-    \$next\vbits_to_cbits_in_end  = integration_2_out_end;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_valid_in  = 1'h0;
-    \$next\vbits_to_cbits_valid_in  = integration_2_valid_out;
-  end
-  always @* begin
-    \$next\vbits_to_cbits_busy_in  = 1'h0;
-    \$next\vbits_to_cbits_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = vbits_to_cbits_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = vbits_to_cbits_valid_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign vbits_to_cbits_busy_in = \$next\vbits_to_cbits_busy_in ;
-  assign vbits_to_cbits_valid_in = \$next\vbits_to_cbits_valid_in ;
-  assign vbits_to_cbits_in_end = \$next\vbits_to_cbits_in_end ;
-  assign vbits_to_cbits_enc_in_ctr = \$next\vbits_to_cbits_enc_in_ctr ;
-  assign vbits_to_cbits_enc_in = \$next\vbits_to_cbits_enc_in ;
-  assign integration_2_latch_output = \$next\integration_2_latch_output ;
-  assign integration_2_valid_in = \$next\integration_2_valid_in ;
-  assign integration_2_pixel_in = \$next\integration_2_pixel_in ;
+  assign nready = integration_2_nready;
+  assign end_out = vbits_to_cbits_end_out;
+  assign valid_out = vbits_to_cbits_valid_out;
+  assign data_out = vbits_to_cbits_data_out;
+  assign vbits_to_cbits_busy_in = busy_in;
+  assign vbits_to_cbits_valid_in = integration_2_valid_out;
+  assign vbits_to_cbits_in_end = integration_2_out_end;
+  assign vbits_to_cbits_enc_in_ctr = integration_2_enc_out_ctr[3:0];
+  assign vbits_to_cbits_enc_in = integration_2_enc_out[14:0];
+  assign integration_2_latch_output = vbits_to_cbits_latch_input;
+  assign integration_2_valid_in = valid_in;
+  assign integration_2_pixel_in = pixel_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
 (* generator = "nMigen" *)
-module lj92_pipeline_fifo(enc_in, enc_in_ctr, in_end, latch_output, rst, clk, valid_out, enc_out, enc_out_ctr, out_end, close_full, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo" *)
+module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end, latch_output, enc_out, enc_out_ctr, out_end, valid_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$143  = 0;
+  (* src = "lj92_pipeline_fifo.py:99" *)
   wire \$1 ;
-  (* src = "lj92_pipeline_fifo.py:67" *)
-  reg \$next\close_full ;
-  (* src = "lj92_pipeline_fifo.py:60" *)
-  reg [27:0] \$next\enc_out ;
-  (* src = "lj92_pipeline_fifo.py:61" *)
-  reg [4:0] \$next\enc_out_ctr ;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  reg [33:0] \$next\fifo_din ;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  reg \$next\fifo_re ;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  reg \$next\fifo_we ;
-  (* src = "lj92_pipeline_fifo.py:62" *)
-  reg \$next\out_end ;
-  (* src = "lj92_pipeline_fifo.py:63" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "lj92_pipeline_fifo.py:67" *)
   output close_full;
   reg close_full = 1'h0;
+  (* src = "lj92_pipeline_fifo.py:67" *)
+  reg \close_full$next ;
   (* src = "lj92_pipeline_fifo.py:54" *)
   input [27:0] enc_in;
+  wire [27:0] enc_in;
   (* src = "lj92_pipeline_fifo.py:55" *)
   input [4:0] enc_in_ctr;
+  wire [4:0] enc_in_ctr;
   (* src = "lj92_pipeline_fifo.py:60" *)
   output [27:0] enc_out;
+  wire [27:0] enc_out;
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  wire [33:0] fifo_din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  wire [33:0] fifo_dout;
-  (* src = "nmigen/lib/fifo.py:238" *)
+  wire [4:0] enc_out_ctr;
+  (* src = "nmigen/lib/fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  wire fifo_re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  wire fifo_readable;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  wire fifo_we;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  wire [33:0] fifo_r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  wire fifo_r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  wire fifo_r_rdy;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  wire [33:0] fifo_w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
+  wire in_end;
   (* src = "lj92_pipeline_fifo.py:59" *)
   input latch_output;
+  wire latch_output;
   (* src = "lj92_pipeline_fifo.py:62" *)
   output out_end;
+  wire out_end;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "lj92_pipeline_fifo.py:57" *)
   input valid_in;
+  wire valid_in;
   (* src = "lj92_pipeline_fifo.py:63" *)
   output valid_out;
+  wire valid_out;
   assign \$1  = fifo_level >= (* src = "lj92_pipeline_fifo.py:99" *) 9'h1f6;
   always @(posedge clk)
-      close_full <= \$next\close_full ;
+    close_full <= \close_full$next ;
   fifo fifo (
     .clk(clk),
-    .din(fifo_din),
-    .dout(fifo_dout),
     .level(fifo_level),
-    .re(fifo_re),
-    .readable(fifo_readable),
+    .r_data(fifo_r_data),
+    .r_en(fifo_r_en),
+    .r_rdy(fifo_r_rdy),
     .rst(rst),
-    .we(fifo_we)
-  );
-  always @* begin
-    \$next\fifo_we  = 1'h0;
-    \$next\fifo_we  = valid_in;
-  end
-  always @* begin
-    \$next\fifo_din  = 34'h000000000;
-    \$next\fifo_din  = { in_end, enc_in_ctr, enc_in };
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = fifo_readable;
-  end
-  always @* begin
-    \$next\enc_out  = 28'h0000000;
-    \$next\enc_out  = fifo_dout[27:0];
-  end
-  always @* begin
-    \$next\enc_out_ctr  = 5'h00;
-    \$next\enc_out_ctr  = fifo_dout[32:28];
-  end
-  always @* begin
-    \$next\out_end  = 1'h0;
-    \$next\out_end  = fifo_dout[33];
-  end
-  always @* begin
-    \$next\fifo_re  = 1'h0;
-    \$next\fifo_re  = latch_output;
-  end
+    .w_data(fifo_w_data),
+    .w_en(fifo_w_en)
+  );
   always @* begin
-    \$next\close_full  = close_full;
-    \$next\close_full  = \$1 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$143 ) begin end
+    \close_full$next  = \$1 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\close_full  = 1'h0;
+          \close_full$next  = 1'h0;
     endcase
   end
-  assign fifo_re = \$next\fifo_re ;
-  assign out_end = \$next\out_end ;
-  assign enc_out_ctr = \$next\enc_out_ctr ;
-  assign enc_out = \$next\enc_out ;
-  assign valid_out = \$next\valid_out ;
-  assign fifo_din = \$next\fifo_din ;
-  assign fifo_we = \$next\fifo_we ;
+  assign fifo_r_en = latch_output;
+  assign out_end = fifo_r_data[33];
+  assign enc_out_ctr = fifo_r_data[32:28];
+  assign enc_out = fifo_r_data[27:0];
+  assign valid_out = fifo_r_rdy;
+  assign fifo_w_data = { in_end, enc_in_ctr, enc_in };
+  assign fifo_w_en = valid_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.markers" *)
 (* generator = "nMigen" *)
-module markers(valid_in, end_in, force_end_in, data_in, rst, clk, valid_out, end_out, data_out, i_busy);
+(* \nmigen.hierarchy  = "top.top_module.markers" *)
+module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, data_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$144  = 0;
+  (* src = "markers.py:110" *)
   wire \$1 ;
+  (* src = "markers.py:145" *)
   wire \$11 ;
+  (* src = "markers.py:76" *)
   wire \$13 ;
+  (* src = "markers.py:76" *)
   wire \$15 ;
+  (* src = "markers.py:76" *)
   wire \$17 ;
+  (* src = "markers.py:76" *)
   wire \$19 ;
+  (* src = "markers.py:76" *)
   wire \$21 ;
+  (* src = "markers.py:110" *)
   wire \$23 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$25 ;
+  (* src = "markers.py:111" *)
   wire [4:0] \$26 ;
+  (* src = "markers.py:113" *)
   wire \$28 ;
+  (* src = "markers.py:113" *)
   wire \$3 ;
+  (* src = "markers.py:128" *)
   wire \$30 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$32 ;
+  (* src = "markers.py:129" *)
   wire [4:0] \$33 ;
+  (* src = "markers.py:142" *)
   wire \$35 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$37 ;
+  (* src = "markers.py:143" *)
   wire [4:0] \$38 ;
+  (* src = "markers.py:100" *)
   wire \$40 ;
+  (* src = "markers.py:110" *)
   wire \$42 ;
+  (* src = "markers.py:113" *)
   wire \$44 ;
+  (* src = "markers.py:128" *)
   wire \$46 ;
+  (* src = "markers.py:131" *)
   wire \$48 ;
+  (* src = "markers.py:128" *)
   wire \$5 ;
+  (* src = "markers.py:142" *)
   wire \$50 ;
+  (* src = "markers.py:145" *)
   wire \$52 ;
+  (* src = "markers.py:110" *)
   wire \$54 ;
+  (* src = "markers.py:113" *)
+  wire \$56 ;
+  (* src = "markers.py:131" *)
   wire \$7 ;
+  (* src = "markers.py:142" *)
   wire \$9 ;
-  (* src = "markers.py:61" *)
-  reg [3:0] \$next\counter ;
-  (* src = "markers.py:38" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "markers.py:75" *)
-  reg \$next\end_cond ;
-  (* src = "markers.py:46" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [2:0] \$next\fsm_state ;
-  (* src = "markers.py:48" *)
-  reg \$next\o_busy ;
-  (* src = "markers.py:42" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 4'h0 *)
+  wire clk;
   (* src = "markers.py:61" *)
   reg [3:0] counter = 4'h0;
+  (* src = "markers.py:61" *)
+  reg [3:0] \counter$next ;
   (* src = "markers.py:35" *)
   input [15:0] data_in;
+  wire [15:0] data_in;
   (* src = "markers.py:38" *)
   output [15:0] data_out;
-  (* init = 1'h0 *)
+  reg [15:0] data_out;
   (* src = "markers.py:75" *)
   reg end_cond = 1'h0;
+  (* src = "markers.py:75" *)
+  reg \end_cond$next ;
   (* src = "markers.py:44" *)
   input end_in;
+  wire end_in;
   (* src = "markers.py:46" *)
   output end_out;
+  reg end_out;
   (* src = "markers.py:45" *)
   input force_end_in;
-  (* init = 3'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  wire force_end_in;
+  (* src = "markers.py:95" *)
   reg [2:0] fsm_state = 3'h0;
+  (* src = "markers.py:95" *)
+  reg [2:0] \fsm_state$next ;
   (* src = "markers.py:49" *)
   input i_busy;
+  wire i_busy;
   (* src = "markers.py:48" *)
-  wire o_busy;
+  output o_busy;
+  reg o_busy;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "markers.py:41" *)
   input valid_in;
+  wire valid_in;
   (* src = "markers.py:42" *)
   output valid_out;
-  assign \$9  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$11  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$13  = i_busy == (* src = "markers.py:76" *) 1'h0;
+  reg valid_out;
+  assign \$9  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$11  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$13  = o_busy == (* src = "markers.py:76" *) 1'h0;
   assign \$15  = valid_in == (* src = "markers.py:76" *) 1'h1;
   assign \$17  = \$13  & (* src = "markers.py:76" *) \$15 ;
-  assign \$1  = i_busy == (* src = "markers.py:109" *) 1'h0;
+  assign \$1  = i_busy == (* src = "markers.py:110" *) 1'h0;
   assign \$19  = end_in == (* src = "markers.py:76" *) 1'h1;
   assign \$21  = \$17  & (* src = "markers.py:76" *) \$19 ;
-  assign \$23  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$26  = counter - (* src = "markers.py:110" *) 1'h1;
-  assign \$28  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$30  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$33  = counter - (* src = "markers.py:128" *) 1'h1;
-  assign \$35  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$38  = counter - (* src = "markers.py:142" *) 1'h1;
-  assign \$3  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$40  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$42  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$44  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$46  = counter == (* src = "markers.py:130" *) 1'h1;
-  assign \$48  = i_busy == (* src = "markers.py:141" *) 1'h0;
-  assign \$50  = counter == (* src = "markers.py:144" *) 1'h1;
-  assign \$52  = i_busy == (* src = "markers.py:109" *) 1'h0;
-  assign \$54  = counter == (* src = "markers.py:112" *) 1'h0;
-  assign \$5  = i_busy == (* src = "markers.py:127" *) 1'h0;
-  assign \$7  = counter == (* src = "markers.py:130" *) 1'h1;
+  assign \$23  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$26  = counter - (* src = "markers.py:111" *) 1'h1;
+  assign \$28  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$30  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$33  = counter - (* src = "markers.py:129" *) 1'h1;
+  assign \$35  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$38  = counter - (* src = "markers.py:143" *) 1'h1;
+  assign \$3  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$40  = valid_in | (* src = "markers.py:100" *) force_end_in;
+  assign \$42  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$44  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$46  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$48  = counter == (* src = "markers.py:131" *) 1'h1;
+  assign \$50  = i_busy == (* src = "markers.py:142" *) 1'h0;
+  assign \$52  = counter == (* src = "markers.py:145" *) 1'h1;
+  assign \$54  = i_busy == (* src = "markers.py:110" *) 1'h0;
+  assign \$56  = counter == (* src = "markers.py:113" *) 1'h0;
+  assign \$5  = i_busy == (* src = "markers.py:128" *) 1'h0;
+  assign \$7  = counter == (* src = "markers.py:131" *) 1'h1;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      counter <= \$next\counter ;
+    counter <= \counter$next ;
   always @(posedge clk)
-      end_cond <= \$next\end_cond ;
+    end_cond <= \end_cond$next ;
   always @* begin
-    \$next\o_busy  = 1'h0;
-    \$next\o_busy  = 1'h1;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    o_busy = 1'h1;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
+      3'h3:
+          /* empty */;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
+      3'h5:
+          /* empty */;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\o_busy  = i_busy;
+            /* src = "markers.py:156" */
+            default:
+                o_busy = i_busy;
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    valid_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+          (* src = "markers.py:110" *)
           casez (\$1 )
+            /* src = "markers.py:110" */
             1'h1:
+                (* src = "markers.py:113" *)
                 casez (\$3 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\valid_out  = 1'h0;
+                      valid_out = 1'h0;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\valid_out  = valid_in;
+            /* src = "markers.py:156" */
+            default:
+                valid_out = valid_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\valid_out  = 1'h1;
+          valid_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    end_out = 1'h0;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
+      3'h1:
+          /* empty */;
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$5 )
+            /* src = "markers.py:128" */
             1'h1:
+                (* src = "markers.py:131" *)
                 casez (\$7 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$9 )
+            /* src = "markers.py:142" */
             1'h1:
+                (* src = "markers.py:145" *)
                 casez (\$11 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      end_out = 1'h1;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
+      3'h2:
+          /* empty */;
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\end_out  = 1'h1;
+          end_out = 1'h1;
     endcase
   end
   always @* begin
-    \$next\end_cond  = end_cond;
-    \$next\end_cond  = \$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \end_cond$next  = \$21 ;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_cond  = 1'h0;
+          \end_cond$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\counter  = counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \counter$next  = counter;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          \$next\counter  = 4'h8;
+          \counter$next  = 4'h8;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
+          (* src = "markers.py:110" *)
           casez (\$23 )
+            /* src = "markers.py:110" */
             1'h1:
               begin
-                \$next\counter  = \$25 [3:0];
+                \counter$next  = \$26 [3:0];
+                (* src = "markers.py:113" *)
                 casez (\$28 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\counter  = 4'h8;
+                      \counter$next  = 4'h8;
                 endcase
               end
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
+          (* src = "markers.py:128" *)
           casez (\$30 )
+            /* src = "markers.py:128" */
             1'h1:
-                \$next\counter  = \$32 [3:0];
+                \counter$next  = \$33 [3:0];
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
+          (* src = "markers.py:142" *)
           casez (\$35 )
+            /* src = "markers.py:142" */
             1'h1:
-                \$next\counter  = \$37 [3:0];
+                \counter$next  = \$38 [3:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\counter  = 4'h0;
+          \counter$next  = 4'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
       3'h0:
-          casez (valid_in)
+          (* src = "markers.py:100" *)
+          casez (\$40 )
+            /* src = "markers.py:100" */
             1'h1:
-                \$next\fsm_state  = 3'h1;
+                \fsm_state$next  = 3'h1;
           endcase
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
-          casez (\$40 )
+          (* src = "markers.py:110" *)
+          casez (\$42 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$42 )
+                (* src = "markers.py:113" *)
+                casez (\$44 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\fsm_state  = 3'h2;
+                      \fsm_state$next  = 3'h2;
                 endcase
           endcase
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          casez (\$44 )
+          (* src = "markers.py:128" *)
+          casez (\$46 )
+            /* src = "markers.py:128" */
             1'h1:
-                casez (\$46 )
+                (* src = "markers.py:131" *)
+                casez (\$48 )
+                  /* src = "markers.py:131" */
                   1'h1:
-                      \$next\fsm_state  = 3'h4;
+                      \fsm_state$next  = 3'h4;
                 endcase
           endcase
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          casez (\$48 )
+          (* src = "markers.py:142" *)
+          casez (\$50 )
+            /* src = "markers.py:142" */
             1'h1:
-                casez (\$50 )
+                (* src = "markers.py:145" *)
+                casez (\$52 )
+                  /* src = "markers.py:145" */
                   1'h1:
-                      \$next\fsm_state  = 3'h6;
+                      \fsm_state$next  = 3'h6;
                 endcase
           endcase
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
-                \$next\fsm_state  = 3'h3;
-            2'b1z:
-                \$next\fsm_state  = 3'h5;
+            /* src = "markers.py:152" */
+            2'b?1:
+                \fsm_state$next  = 3'h3;
+            /* src = "markers.py:154" */
+            2'b1?:
+                \fsm_state$next  = 3'h5;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 3'h0;
+          \fsm_state$next  = 3'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = 16'h0000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$144 ) begin end
+    data_out = 16'h0000;
+    (* src = "markers.py:95" *)
     casez (fsm_state)
+      /* src = "markers.py:97" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      3'h0:
+          /* empty */;
+      /* src = "markers.py:103" */
+      /* \nmigen.decoding  = "STARING_MARKER/1" */
       3'h1:
         begin
-          \$next\data_out  = 16'hffff;
-          casez (\$52 )
+          data_out = 16'hffff;
+          (* src = "markers.py:110" *)
+          casez (\$54 )
+            /* src = "markers.py:110" */
             1'h1:
-                casez (\$54 )
+                (* src = "markers.py:113" *)
+                casez (\$56 )
+                  /* src = "markers.py:113" */
                   1'h1:
-                      \$next\data_out  = 16'h0000;
+                      data_out = 16'h0000;
                 endcase
           endcase
         end
+      /* src = "markers.py:121" */
+      /* \nmigen.decoding  = "ENDING_MARKER/3" */
       3'h3:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:135" */
+      /* \nmigen.decoding  = "FORCE_ENDING_MARKER/5" */
       3'h5:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
+      /* src = "markers.py:149" */
+      /* \nmigen.decoding  = "FRAME_HANDLING/2" */
       3'h2:
+          (* src = "markers.py:152" *)
           casez ({ force_end_in, end_cond })
-            2'bz1:
+            /* src = "markers.py:152" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
+            /* src = "markers.py:154" */
+            2'b1?:
                 /* empty */;
-            2'hz:
-                \$next\data_out  = data_in;
+            /* src = "markers.py:156" */
+            default:
+                data_out = data_in;
           endcase
+      /* src = "markers.py:168" */
+      /* \nmigen.decoding  = "DONE_NORMAL/4" */
       3'h4:
-          \$next\data_out  = 16'hffff;
+          data_out = 16'hffff;
+      /* src = "markers.py:175" */
+      /* \nmigen.decoding  = "DONE_FORCE/6" */
       3'h6:
-          \$next\data_out  = 16'hfffe;
+          data_out = 16'hfffe;
     endcase
   end
   assign \$25  = \$26 ;
   assign \$32  = \$33 ;
   assign \$37  = \$38 ;
-  assign data_out = \$next\data_out ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign o_busy = \$next\o_busy ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
 (* generator = "nMigen" *)
-module normalize(valid_in, end_in, vals_in_mns, rst, clk, ssss, val_out, valid_out, end_out, val_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.normalize" *)
+module normalize(rst, val_in, vals_in_mns, valid_in, end_in, val_out, ssss, valid_out, end_out, clk);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$2 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [12:0] \$next\val_in$1 ;
+  wire [12:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [12:0] \$next\val_in_mns ;
-  (* src = "normalize.py:199" *)
-  reg [11:0] \$next\val_out ;
+  wire [12:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [11:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$2 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$5 ;
+  wire end_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$4 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:194" *)
   input [12:0] val_in;
-  (* src = "normalize.py:119" *)
-  wire [12:0] \val_in$1 ;
-  (* src = "normalize.py:121" *)
-  wire [12:0] val_in_mns;
+  wire [12:0] val_in;
   (* src = "normalize.py:199" *)
   output [11:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [11:0] \val_out$3 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
+  wire [11:0] val_out;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [12:0] vals_in_mns;
-  anonymous \$6  (
+  wire [12:0] vals_in_mns;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$2 ),
-    .end_out(\end_out$5 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$4 ),
-    .val_in(\val_in$1 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$3 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  always @* begin
-    \$next\val_in$1  = 13'h0000;
-    \$next\val_in$1  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$2  = 1'h0;
-    \$next\end_in$2  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 13'h0000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$4 ;
-  end
-  always @* begin
-    \$next\val_out  = 12'h000;
-    \$next\val_out  = \val_out$3 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$5 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$2  = \$next\end_in$2 ;
-  assign valid = \$next\valid ;
-  assign \val_in$1  = \$next\val_in$1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits.output_handler" *)
+module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$145  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [6:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [6:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [6:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [6:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [40:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [55:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [3:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [4:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [5:0] buff_consum;
+  wire [5:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [40:0] buffer;
+  wire [40:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 16'h0000 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [15:0] data_out;
   reg [15:0] data_out = 16'h0000;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [15:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [3:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [4:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -6716,148 +8732,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\shift_right  = 5'h00;
-    \$next\shift_right  = \$1 [4:0];
-  end
-  always @* begin
-    \$next\shift_left  = 4'h0;
-    \$next\shift_left  = \$4 [3:0];
-  end
-  always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [15:0];
+                      \data_out$next  = \$40 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [15:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [15:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [15:0];
+                      \data_out$next  = \$52 [15:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 16'h0000;
+          \data_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$145 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -6866,129 +8935,130 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [3:0];
+  assign shift_right = \$2 [4:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
 (* generator = "nMigen" *)
-module predictor(new_row, pixel_in, end_in, rst, clk, pixel_out, predic_out, valid_out, end_out, valid_in);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.predictor" *)
+module predictor(rst, pixel_in, new_row, end_in, valid_in, pixel_out, predic_out, valid_out, end_out, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$146  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$1 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$11 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$13 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$15 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [2:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [2:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [2:0] \$24 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [2:0] \$25 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$3 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$5 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$7 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$9 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$21 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$22 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [11:0] \$next\buff$23 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg [1:0] \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$27 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$28 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [11:0] \$next\lbuff$29 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg [1:0] \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [11:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [11:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 12'h800 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] buff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$21  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$21$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$22  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$22$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [11:0] \buff$23  = 12'h800;
-  (* init = 2'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$23$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [11:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg [1:0] buff_ctr = 2'h0;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg [1:0] \buff_ctr$next ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] lbuff = 12'h800;
-  (* init = 12'h800 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$27  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$27$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$28  = 12'h800;
-  (* init = 12'h800 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$28$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [11:0] \lbuff$29  = 12'h800;
-  (* init = 2'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$29$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [11:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg [1:0] lbuff_ctr = 2'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg [1:0] \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [11:0] pixel_in;
-  (* init = 12'h000 *)
+  wire [11:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [11:0] pixel_out;
   reg [11:0] pixel_out = 12'h000;
-  (* init = 12'h000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [11:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [11:0] predic_out;
   reg [11:0] predic_out = 12'h000;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [11:0] \predic_out$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$9  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 2'h3;
   assign \$11  = \$7  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$9 ;
   assign \$13  = new_row | (* src = "predictor_p1_c4_pix1_2.py:119" *) new_row_reg;
@@ -7000,338 +9070,486 @@ module predictor(new_row, pixel_in, end_in, rst, clk, pixel_out, predic_out, val
   assign \$5  = \$1  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$3 ;
   assign \$7  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$29  <= \$next\lbuff$29 ;
+    \lbuff$29  <= \lbuff$29$next ;
   always @(posedge clk)
-      \lbuff$28  <= \$next\lbuff$28 ;
+    \lbuff$28  <= \lbuff$28$next ;
   always @(posedge clk)
-      \lbuff$27  <= \$next\lbuff$27 ;
+    \lbuff$27  <= \lbuff$27$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @(posedge clk)
-      \buff$23  <= \$next\buff$23 ;
+    \buff$23  <= \buff$23$next ;
   always @(posedge clk)
-      \buff$22  <= \$next\buff$22 ;
+    \buff$22  <= \buff$22$next ;
   always @(posedge clk)
-      \buff$21  <= \$next\buff$21 ;
+    \buff$21  <= \buff$21$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$11 , \$5  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
-    endcase
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$13 ;
-  end
-  always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 12'h800;
+          \lbuff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$27  = \lbuff$27 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$27$next  = \lbuff$27 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h1:
-                      \$next\lbuff$27  = pixel_in;
+                      \lbuff$27$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$27  = 12'h800;
+          \lbuff$27$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$28  = \lbuff$28 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$28$next  = \lbuff$28 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h1:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h2:
-                      \$next\lbuff$28  = pixel_in;
+                      \lbuff$28$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$28  = 12'h800;
+          \lbuff$28$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff$29  = \lbuff$29 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff$29$next  = \lbuff$29 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h1:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  2'h2:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   2'h3:
-                      \$next\lbuff$29  = pixel_in;
+                      \lbuff$29$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$29  = 12'h800;
+          \lbuff$29$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h1:
-                      \$next\predic_out  = \lbuff$27 ;
+                      \predic_out$next  = \lbuff$27 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h2:
-                      \$next\predic_out  = \lbuff$28 ;
+                      \predic_out$next  = \lbuff$28 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   2'h3:
-                      \$next\predic_out  = \lbuff$29 ;
+                      \predic_out$next  = \lbuff$29 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h1:
-                      \$next\predic_out  = \buff$21 ;
+                      \predic_out$next  = \buff$21 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h2:
-                      \$next\predic_out  = \buff$22 ;
+                      \predic_out$next  = \buff$22 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   2'h3:
-                      \$next\predic_out  = \buff$23 ;
+                      \predic_out$next  = \buff$23 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 12'h000;
+          \predic_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$15 [31:0];
+          \debug_counter$next  = \$16 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 12'h000;
+          \pixel_out$next  = 12'h000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$18 [1:0];
+          \buff_ctr$next  = \$19 [1:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 2'h0;
+          \buff_ctr$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 12'h800;
+          \buff$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$21  = \buff$21 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$21$next  = \buff$21 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h1:
-                \$next\buff$21  = pixel_in;
+                \buff$21$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$21  = 12'h800;
+          \buff$21$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$22  = \buff$22 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$22$next  = \buff$22 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h1:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h2:
-                \$next\buff$22  = pixel_in;
+                \buff$22$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$22  = 12'h800;
+          \buff$22$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\buff$23  = \buff$23 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \buff$23$next  = \buff$23 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h1:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            2'h2:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             2'h3:
-                \$next\buff$23  = pixel_in;
+                \buff$23$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$23  = 12'h800;
+          \buff$23$next  = 12'h800;
     endcase
   end
   always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$146 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$24 [1:0];
+                \lbuff_ctr$next  = \$25 [1:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 2'h0;
+          \lbuff_ctr$next  = 2'h0;
     endcase
   end
   assign \$15  = \$16 ;
   assign \$18  = \$19 ;
   assign \$24  = \$25 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$13 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
 (* generator = "nMigen" *)
-module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.integration_1.signals" *)
+module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$147  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 1'h1;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -7346,124 +9564,193 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 1'h1;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 1'h1;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$147 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -7472,88 +9759,110 @@ module signals(width, height, rst, clk, new_row, end_of_frame, new_input);
   assign \$14  = \$15 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, end_in, \end_in$1 , m_tvalid, m_tlast, m_tdata, s_tready, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid, m_tready);
-  wire \$2 ;
-  wire \$4 ;
-  (* src = "micro_integration_axistream.py:15" *)
-  reg [15:0] \$next\m_tdata ;
-  (* src = "micro_integration_axistream.py:13" *)
-  reg \$next\m_tlast ;
-  (* src = "micro_integration_axistream.py:12" *)
-  reg \$next\m_tvalid ;
-  (* src = "micro_integration_axistream.py:39" *)
-  reg \$next\s_end ;
-  (* src = "micro_integration_axistream.py:20" *)
-  reg \$next\s_tready ;
-  (* src = "micro_integration.py:42" *)
-  reg \$next\top_module_busy_in ;
-  (* src = "micro_integration.py:32" *)
-  reg [11:0] \$next\top_module_pixel_in ;
-  (* src = "micro_integration.py:38" *)
-  reg \$next\top_module_valid_in ;
-  (* src = "fix_0xff.py:81" *)
-  input end_in;
-  (* src = "fix_0xff2.py:159" *)
-  input \end_in$1 ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(m_tlast, m_tready, m_tdata, s_tvalid, s_tlast, s_tready, s_tdata, s_axi_aclk, s_axi_areset_n, s_axi_ro__arready, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_ro__rvalid, s_axi_ri__araddr, s_axi_ri__arprot, s_axi_ri__arvalid, s_axi_ri__rready, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bresp, s_axi_wo__bvalid
+, s_axi_wi__awaddr, s_axi_wi__awprot, s_axi_wi__awvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__wvalid, s_axi_wi__bready, full_clk, full_rst, m_tvalid);
+  (* src = "micro_integration_axistream.py:46" *)
+  wire \$1 ;
+  (* src = "micro_integration_axistream.py:53" *)
+  wire \$3 ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "micro_integration_axistream.py:15" *)
+  wire full_rst;
+  (* src = "micro_integration_axistream.py:16" *)
   output [15:0] m_tdata;
-  (* src = "micro_integration_axistream.py:13" *)
-  output m_tlast;
+  wire [15:0] m_tdata;
   (* src = "micro_integration_axistream.py:14" *)
+  output m_tlast;
+  wire m_tlast;
+  (* src = "micro_integration_axistream.py:15" *)
   input m_tready;
-  (* src = "micro_integration_axistream.py:12" *)
+  wire m_tready;
+  (* src = "micro_integration_axistream.py:13" *)
   output m_tvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire m_tvalid;
+  (* src = "core_axi_lite.py:70" *)
+  input s_axi_aclk;
+  wire s_axi_aclk;
+  (* src = "core_axi_lite.py:71" *)
+  input s_axi_areset_n;
+  wire s_axi_areset_n;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
+  input [2:0] s_axi_ri__arprot;
+  wire [2:0] s_axi_ri__arprot;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
   output [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
+  input [2:0] s_axi_wi__awprot;
+  wire [2:0] s_axi_wi__awprot;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__wready;
-  (* src = "micro_integration_axistream.py:39" *)
+  wire s_axi_wo__wready;
+  (* src = "micro_integration_axistream.py:40" *)
   wire s_end;
-  (* src = "micro_integration_axistream.py:21" *)
+  (* src = "micro_integration_axistream.py:22" *)
   input [31:0] s_tdata;
-  (* src = "micro_integration_axistream.py:19" *)
-  input s_tlast;
+  wire [31:0] s_tdata;
   (* src = "micro_integration_axistream.py:20" *)
+  input s_tlast;
+  wire s_tlast;
+  (* src = "micro_integration_axistream.py:21" *)
   output s_tready;
-  (* src = "micro_integration_axistream.py:18" *)
+  wire s_tready;
+  (* src = "micro_integration_axistream.py:19" *)
   input s_tvalid;
+  wire s_tvalid;
   (* src = "micro_integration.py:42" *)
   wire top_module_busy_in;
   (* src = "micro_integration.py:35" *)
@@ -7568,135 +9877,62 @@ module top(s_tdata, s_tlast, s_tvalid, full_clk, full_rst, s_axi_ri__arvalid, s_
   wire top_module_valid_in;
   (* src = "micro_integration.py:39" *)
   wire top_module_valid_out;
-  assign \$2  = m_tready == (* src = "micro_integration_axistream.py:45" *) 1'h0;
-  assign \$4  = top_module_nready == (* src = "micro_integration_axistream.py:52" *) 1'h0;
+  assign \$1  = m_tready == (* src = "micro_integration_axistream.py:46" *) 1'h0;
+  assign \$3  = top_module_nready == (* src = "micro_integration_axistream.py:53" *) 1'h0;
   top_module top_module (
     .busy_in(top_module_busy_in),
     .data_out(top_module_data_out),
-    .end_in(end_in),
-    .\end_in$1 (\end_in$1 ),
     .end_out(top_module_end_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
     .nready(top_module_nready),
     .pixel_in(top_module_pixel_in),
     .s_axi_ri__araddr(s_axi_ri__araddr),
-    .s_axi_ri__arvalid(s_axi_ri__arvalid),
-    .s_axi_ri__rready(s_axi_ri__rready),
-    .s_axi_ro__arready(s_axi_ro__arready),
-    .s_axi_ro__rdata(s_axi_ro__rdata),
-    .s_axi_ro__rresp(s_axi_ro__rresp),
-    .s_axi_ro__rvalid(s_axi_ro__rvalid),
-    .s_axi_wi__awaddr(s_axi_wi__awaddr),
-    .s_axi_wi__awvalid(s_axi_wi__awvalid),
-    .s_axi_wi__bready(s_axi_wi__bready),
-    .s_axi_wi__wdata(s_axi_wi__wdata),
-    .s_axi_wi__wstrb(s_axi_wi__wstrb),
-    .s_axi_wi__wvalid(s_axi_wi__wvalid),
-    .s_axi_wo__awready(s_axi_wo__awready),
-    .s_axi_wo__bresp(s_axi_wo__bresp),
-    .s_axi_wo__bvalid(s_axi_wo__bvalid),
-    .s_axi_wo__wready(s_axi_wo__wready),
-    .valid_in(top_module_valid_in),
-    .valid_out(top_module_valid_out)
-  );
-  always @* begin
-    \$next\m_tdata  = 16'h0000;
-    \$next\m_tdata  = top_module_data_out;
-  end
-  always @* begin
-    \$next\m_tlast  = 1'h0;
-    \$next\m_tlast  = top_module_end_out;
-  end
-  always @* begin
-    \$next\top_module_busy_in  = 1'h0;
-    \$next\top_module_busy_in  = \$2 ;
-  end
-  always @* begin
-    \$next\m_tvalid  = 1'h0;
-    \$next\m_tvalid  = top_module_valid_out;
-  end
-  always @* begin
-    \$next\top_module_pixel_in  = 12'h000;
-    \$next\top_module_pixel_in  = s_tdata[11:0];
-  end
-  always @* begin
-    \$next\s_tready  = 1'h0;
-    \$next\s_tready  = \$4 ;
-  end
-  always @* begin
-    \$next\s_end  = 1'h0;
-    \$next\s_end  = s_tlast;
-  end
-  always @* begin
-    \$next\top_module_valid_in  = 1'h0;
-    \$next\top_module_valid_in  = s_tvalid;
-  end
-  assign top_module_valid_in = \$next\top_module_valid_in ;
-  assign s_end = \$next\s_end ;
-  assign s_tready = \$next\s_tready ;
-  assign top_module_pixel_in = \$next\top_module_pixel_in ;
-  assign m_tvalid = \$next\m_tvalid ;
-  assign top_module_busy_in = \$next\top_module_busy_in ;
-  assign m_tlast = \$next\m_tlast ;
-  assign m_tdata = \$next\m_tdata ;
-endmodule
-
-(* \nmigen.hierarchy  = "top.top_module" *)
-(* generator = "nMigen" *)
-module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, end_in, \end_in$1 , data_out, valid_out, end_out, nready, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, full_clk);
-  wire \$2 ;
-  wire \$4 ;
-  wire \$6 ;
-  wire \$8 ;
-  (* src = "auto_reset.py:34" *)
-  reg \$next\auto_reset_end_in ;
-  (* src = "auto_reset.py:37" *)
-  reg \$next\auto_reset_hs1_in ;
-  (* src = "auto_reset.py:40" *)
-  reg \$next\auto_reset_hs2_in ;
-  (* src = "micro_integration.py:35" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "micro_integration.py:40" *)
-  reg \$next\end_out ;
-  (* src = "fix_0xff2.py:149" *)
-  reg [31:0] \$next\fix_0xff2_data_in ;
-  (* src = "fix_0xff2.py:150" *)
-  reg [2:0] \$next\fix_0xff2_data_in_ctr ;
-  (* src = "fix_0xff2.py:163" *)
-  reg \$next\fix_0xff2_i_busy ;
-  (* src = "fix_0xff2.py:156" *)
-  reg \$next\fix_0xff2_valid_in ;
-  (* src = "fix_0xff.py:69" *)
-  reg [15:0] \$next\fix_0xff_data_in ;
-  (* src = "fix_0xff.py:79" *)
-  reg \$next\fix_0xff_i_busy ;
-  (* src = "fix_0xff.py:76" *)
-  reg \$next\fix_0xff_valid_in ;
-  (* src = "integration_3.py:32" *)
-  reg \$next\integration_3_busy_in ;
-  (* src = "nmigen/hdl/mem.py:97" *)
-  reg \$next\integration_3_clk ;
-  (* src = "integration_3.py:22" *)
-  reg [11:0] \$next\integration_3_pixel_in ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\integration_3_rst ;
-  (* src = "integration_3.py:28" *)
-  reg \$next\integration_3_valid_in ;
-  (* src = "markers.py:35" *)
-  reg [15:0] \$next\markers_data_in ;
-  (* src = "markers.py:44" *)
-  reg \$next\markers_end_in ;
-  (* src = "markers.py:45" *)
-  reg \$next\markers_force_end_in ;
-  (* src = "markers.py:49" *)
-  reg \$next\markers_i_busy ;
-  (* src = "markers.py:41" *)
-  reg \$next\markers_valid_in ;
-  (* src = "micro_integration.py:41" *)
-  reg \$next\nready ;
-  (* src = "micro_integration.py:39" *)
-  reg \$next\valid_out ;
+    .s_axi_ri__arvalid(s_axi_ri__arvalid),
+    .s_axi_ri__rready(s_axi_ri__rready),
+    .s_axi_ro__arready(s_axi_ro__arready),
+    .s_axi_ro__rdata(s_axi_ro__rdata),
+    .s_axi_ro__rresp(s_axi_ro__rresp),
+    .s_axi_ro__rvalid(s_axi_ro__rvalid),
+    .s_axi_wi__awaddr(s_axi_wi__awaddr),
+    .s_axi_wi__awvalid(s_axi_wi__awvalid),
+    .s_axi_wi__bready(s_axi_wi__bready),
+    .s_axi_wi__wdata(s_axi_wi__wdata),
+    .s_axi_wi__wstrb(s_axi_wi__wstrb),
+    .s_axi_wi__wvalid(s_axi_wi__wvalid),
+    .s_axi_wo__awready(s_axi_wo__awready),
+    .s_axi_wo__bresp(s_axi_wo__bresp),
+    .s_axi_wo__bvalid(s_axi_wo__bvalid),
+    .s_axi_wo__wready(s_axi_wo__wready),
+    .valid_in(top_module_valid_in),
+    .valid_out(top_module_valid_out)
+  );
+  assign top_module_valid_in = s_tvalid;
+  assign s_end = s_tlast;
+  assign s_tready = \$3 ;
+  assign top_module_pixel_in = s_tdata[11:0];
+  assign m_tvalid = top_module_valid_out;
+  assign top_module_busy_in = \$1 ;
+  assign m_tlast = top_module_end_out;
+  assign m_tdata = top_module_data_out;
+endmodule
+
+(* generator = "nMigen" *)
+(* \nmigen.hierarchy  = "top.top_module" *)
+module top_module(end_out, busy_in, valid_out, pixel_in, nready, valid_in, full_clk, full_rst, s_axi_ri__arvalid, s_axi_wi__awvalid, s_axi_ri__araddr, s_axi_ri__rready, s_axi_wi__awaddr, s_axi_wi__wvalid, s_axi_wi__wdata, s_axi_wi__wstrb, s_axi_wi__bready, s_axi_ro__arready, s_axi_ro__rvalid, s_axi_wo__awready, s_axi_wo__wready
+, s_axi_wo__bvalid, s_axi_ro__rdata, s_axi_ro__rresp, s_axi_wo__bresp, data_out);
+  (* src = "micro_integration.py:71" *)
+  wire \$1 ;
+  (* src = "micro_integration.py:133" *)
+  wire \$11 ;
+  (* src = "micro_integration.py:71" *)
+  wire \$3 ;
+  (* src = "micro_integration.py:71" *)
+  wire \$5 ;
+  (* src = "micro_integration.py:78" *)
+  wire \$7 ;
+  (* src = "micro_integration.py:133" *)
+  wire \$9 ;
   (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
   (* src = "auto_reset.py:37" *)
@@ -7707,20 +9943,21 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire auto_reset_reset_out;
   (* src = "micro_integration.py:42" *)
   input busy_in;
+  wire busy_in;
   (* src = "micro_integration.py:35" *)
   output [15:0] data_out;
-  (* src = "fix_0xff.py:81" *)
-  input end_in;
-  (* src = "fix_0xff2.py:159" *)
-  input \end_in$1 ;
+  wire [15:0] data_out;
   (* src = "micro_integration.py:40" *)
   output end_out;
+  wire end_out;
   (* src = "fix_0xff2.py:149" *)
   wire [31:0] fix_0xff2_data_in;
   (* src = "fix_0xff2.py:150" *)
   wire [2:0] fix_0xff2_data_in_ctr;
   (* src = "fix_0xff2.py:153" *)
   wire [15:0] fix_0xff2_data_out;
+  (* src = "fix_0xff2.py:159" *)
+  wire fix_0xff2_end_in;
   (* src = "fix_0xff2.py:160" *)
   wire fix_0xff2_end_out;
   (* src = "fix_0xff2.py:163" *)
@@ -7737,6 +9974,10 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire [31:0] fix_0xff_data_out;
   (* src = "fix_0xff.py:73" *)
   wire [2:0] fix_0xff_data_out_ctr;
+  (* src = "fix_0xff.py:81" *)
+  wire fix_0xff_end_in;
+  (* src = "fix_0xff.py:82" *)
+  wire fix_0xff_end_out;
   (* src = "fix_0xff.py:79" *)
   wire fix_0xff_i_busy;
   (* src = "fix_0xff.py:78" *)
@@ -7747,25 +9988,29 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire fix_0xff_valid_out;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
-  (* src = "integration_3.py:32" *)
+  wire full_rst;
+  (* src = "integration_3.py:33" *)
   wire integration_3_busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "clk_domains.py:5" *)
   wire integration_3_clk;
-  (* src = "integration_3.py:25" *)
+  (* src = "integration_3.py:26" *)
   wire [15:0] integration_3_data_out;
-  (* src = "integration_1.py:35" *)
-  wire integration_3_fend_out;
   (* src = "integration_3.py:31" *)
+  wire integration_3_end_out;
+  (* src = "integration_1.py:36" *)
+  wire integration_3_fend_out;
+  (* src = "integration_3.py:32" *)
   wire integration_3_nready;
-  (* src = "integration_3.py:22" *)
+  (* src = "integration_3.py:23" *)
   wire [11:0] integration_3_pixel_in;
   (* src = "clk_domains.py:5" *)
   wire integration_3_rst;
-  (* src = "integration_3.py:28" *)
-  wire integration_3_valid_in;
   (* src = "integration_3.py:29" *)
+  wire integration_3_valid_in;
+  (* src = "integration_3.py:30" *)
   wire integration_3_valid_out;
   (* src = "markers.py:35" *)
   wire [15:0] markers_data_in;
@@ -7779,56 +10024,81 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
   wire markers_force_end_in;
   (* src = "markers.py:49" *)
   wire markers_i_busy;
+  (* src = "markers.py:48" *)
+  wire markers_o_busy;
   (* src = "markers.py:41" *)
   wire markers_valid_in;
   (* src = "markers.py:42" *)
   wire markers_valid_out;
   (* src = "micro_integration.py:41" *)
   output nready;
+  wire nready;
   (* src = "micro_integration.py:32" *)
   input [11:0] pixel_in;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [11:0] pixel_in;
+  (* src = "core_axi_lite.py:75" *)
   input [31:0] s_axi_ri__araddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ri__araddr;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__arvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__arvalid;
+  (* src = "core_axi_lite.py:75" *)
   input s_axi_ri__rready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ri__rready;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__arready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__arready;
+  (* src = "core_axi_lite.py:74" *)
   output [31:0] s_axi_ro__rdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_ro__rdata;
+  (* src = "core_axi_lite.py:74" *)
   output [1:0] s_axi_ro__rresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_ro__rresp;
+  (* src = "core_axi_lite.py:74" *)
   output s_axi_ro__rvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_ro__rvalid;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__awaddr;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__awaddr;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__awvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__awvalid;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__bready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__bready;
+  (* src = "core_axi_lite.py:77" *)
   input [31:0] s_axi_wi__wdata;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [31:0] s_axi_wi__wdata;
+  (* src = "core_axi_lite.py:77" *)
   input [3:0] s_axi_wi__wstrb;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [3:0] s_axi_wi__wstrb;
+  (* src = "core_axi_lite.py:77" *)
   input s_axi_wi__wvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wi__wvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__awready;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__awready;
+  (* src = "core_axi_lite.py:76" *)
   output [1:0] s_axi_wo__bresp;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire [1:0] s_axi_wo__bresp;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__bvalid;
-  (* src = "nmigen/hdl/rec.py:84" *)
+  wire s_axi_wo__bvalid;
+  (* src = "core_axi_lite.py:76" *)
   output s_axi_wo__wready;
+  wire s_axi_wo__wready;
   (* src = "micro_integration.py:38" *)
   input valid_in;
+  wire valid_in;
   (* src = "micro_integration.py:39" *)
   output valid_out;
-  assign \$2  = auto_reset_reset_out == (* src = "micro_integration.py:68" *) 1'h1;
-  assign \$4  = full_rst == (* src = "micro_integration.py:68" *) 1'h1;
-  assign \$6  = \$2  | (* src = "micro_integration.py:68" *) \$4 ;
-  assign \$8  = busy_in == (* src = "micro_integration.py:75" *) 1'h0;
+  wire valid_out;
+  assign \$9  = auto_reset_reset_out == (* src = "micro_integration.py:133" *) 1'h0;
+  assign \$11  = markers_valid_out & (* src = "micro_integration.py:133" *) \$9 ;
+  assign \$1  = auto_reset_reset_out == (* src = "micro_integration.py:71" *) 1'h1;
+  assign \$3  = full_rst == (* src = "micro_integration.py:71" *) 1'h1;
+  assign \$5  = \$1  | (* src = "micro_integration.py:71" *) \$3 ;
+  assign \$7  = busy_in == (* src = "micro_integration.py:78" *) 1'h0;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -7842,7 +10112,8 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .data_in(fix_0xff_data_in),
     .data_out(fix_0xff_data_out),
     .data_out_ctr(fix_0xff_data_out_ctr),
-    .end_in(end_in),
+    .end_in(fix_0xff_end_in),
+    .end_out(fix_0xff_end_out),
     .i_busy(fix_0xff_i_busy),
     .o_busy(fix_0xff_o_busy),
     .rst(integration_3_rst),
@@ -7854,7 +10125,7 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .data_in(fix_0xff2_data_in),
     .data_in_ctr(fix_0xff2_data_in_ctr),
     .data_out(fix_0xff2_data_out),
-    .end_in(\end_in$1 ),
+    .end_in(fix_0xff2_end_in),
     .end_out(fix_0xff2_end_out),
     .i_busy(fix_0xff2_i_busy),
     .o_busy(fix_0xff2_o_busy),
@@ -7866,6 +10137,7 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .busy_in(integration_3_busy_in),
     .clk(integration_3_clk),
     .data_out(integration_3_data_out),
+    .end_out(integration_3_end_out),
     .fend_out(integration_3_fend_out),
     .full_clk(full_clk),
     .full_rst(full_rst),
@@ -7900,270 +10172,142 @@ module top_module(full_rst, busy_in, pixel_in, valid_in, s_axi_ri__arvalid, s_ax
     .end_out(markers_end_out),
     .force_end_in(markers_force_end_in),
     .i_busy(markers_i_busy),
+    .o_busy(markers_o_busy),
     .rst(integration_3_rst),
     .valid_in(markers_valid_in),
     .valid_out(markers_valid_out)
   );
-  always @* begin
-    \$next\integration_3_clk  = 1'h0;
-    \$next\integration_3_clk  = full_clk;
-  end
-  always @* begin
-    \$next\integration_3_rst  = 1'h0;
-    \$next\integration_3_rst  = \$6 ;
-  end
-  always @* begin
-    \$next\fix_0xff_i_busy  = 1'h0;
-    \$next\fix_0xff_i_busy  = fix_0xff2_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in  = 32'd0;
-    \$next\fix_0xff2_data_in  = fix_0xff_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_valid_in  = 1'h0;
-    \$next\fix_0xff2_valid_in  = fix_0xff_valid_out;
-  end
-  always @* begin
-    \$next\fix_0xff2_i_busy  = 1'h0;
-    \$next\fix_0xff2_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\fix_0xff2_data_in_ctr  = 3'h0;
-    \$next\fix_0xff2_data_in_ctr  = fix_0xff_data_out_ctr;
-  end
-  always @* begin
-    \$next\markers_data_in  = 16'h0000;
-    \$next\markers_data_in  = fix_0xff2_data_out;
-  end
-  always @* begin
-    \$next\markers_valid_in  = 1'h0;
-    \$next\markers_valid_in  = fix_0xff2_valid_out;
-  end
-  always @* begin
-    \$next\markers_force_end_in  = 1'h0;
-    \$next\markers_force_end_in  = integration_3_fend_out;
-  end
-  always @* begin
-    \$next\markers_end_in  = 1'h0;
-    \$next\markers_end_in  = fix_0xff2_end_out;
-  end
-  always @* begin
-    \$next\markers_i_busy  = 1'h0;
-    \$next\markers_i_busy  = busy_in;
-  end
-  always @* begin
-    \$next\auto_reset_end_in  = 1'h0;
-    \$next\auto_reset_end_in  = end_out;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = markers_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = markers_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = markers_end_out;
-  end
-  always @* begin
-    \$next\nready  = 1'h0;
-    \$next\nready  = integration_3_nready;
-  end
-  always @* begin
-    \$next\auto_reset_hs1_in  = 1'h0;
-    \$next\auto_reset_hs1_in  = valid_out;
-  end
-  always @* begin
-    \$next\auto_reset_hs2_in  = 1'h0;
-    \$next\auto_reset_hs2_in  = \$8 ;
-  end
-  always @* begin
-    \$next\integration_3_pixel_in  = 12'h000;
-    \$next\integration_3_pixel_in  = pixel_in;
-  end
-  always @* begin
-    \$next\integration_3_valid_in  = 1'h0;
-    \$next\integration_3_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\integration_3_busy_in  = 1'h0;
-    \$next\integration_3_busy_in  = fix_0xff_o_busy;
-  end
-  always @* begin
-    \$next\fix_0xff_data_in  = 16'h0000;
-    \$next\fix_0xff_data_in  = integration_3_data_out;
-  end
-  always @* begin
-    \$next\fix_0xff_valid_in  = 1'h0;
-    \$next\fix_0xff_valid_in  = integration_3_valid_out;
-  end
-  assign nready = \$next\nready ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign markers_i_busy = \$next\markers_i_busy ;
-  assign markers_end_in = \$next\markers_end_in ;
-  assign markers_force_end_in = \$next\markers_force_end_in ;
-  assign markers_valid_in = \$next\markers_valid_in ;
-  assign markers_data_in = \$next\markers_data_in ;
-  assign fix_0xff2_data_in_ctr = \$next\fix_0xff2_data_in_ctr ;
-  assign fix_0xff2_i_busy = \$next\fix_0xff2_i_busy ;
-  assign fix_0xff2_valid_in = \$next\fix_0xff2_valid_in ;
-  assign fix_0xff2_data_in = \$next\fix_0xff2_data_in ;
-  assign fix_0xff_i_busy = \$next\fix_0xff_i_busy ;
-  assign fix_0xff_valid_in = \$next\fix_0xff_valid_in ;
-  assign fix_0xff_data_in = \$next\fix_0xff_data_in ;
-  assign integration_3_busy_in = \$next\integration_3_busy_in ;
-  assign integration_3_valid_in = \$next\integration_3_valid_in ;
-  assign integration_3_pixel_in = \$next\integration_3_pixel_in ;
-  assign auto_reset_hs2_in = \$next\auto_reset_hs2_in ;
-  assign auto_reset_hs1_in = \$next\auto_reset_hs1_in ;
-  assign auto_reset_end_in = \$next\auto_reset_end_in ;
-  assign integration_3_rst = \$next\integration_3_rst ;
-  assign integration_3_clk = \$next\integration_3_clk ;
+  assign nready = integration_3_nready;
+  assign end_out = markers_end_out;
+  assign valid_out = \$11 ;
+  assign data_out = markers_data_out;
+  assign markers_i_busy = busy_in;
+  assign markers_end_in = fix_0xff2_end_out;
+  assign markers_force_end_in = integration_3_fend_out;
+  assign markers_valid_in = fix_0xff2_valid_out;
+  assign markers_data_in = fix_0xff2_data_out;
+  assign fix_0xff2_data_in_ctr = fix_0xff_data_out_ctr;
+  assign fix_0xff2_i_busy = markers_o_busy;
+  assign fix_0xff2_end_in = fix_0xff_end_out;
+  assign fix_0xff2_valid_in = fix_0xff_valid_out;
+  assign fix_0xff2_data_in = fix_0xff_data_out;
+  assign fix_0xff_i_busy = fix_0xff2_o_busy;
+  assign fix_0xff_end_in = integration_3_end_out;
+  assign fix_0xff_valid_in = integration_3_valid_out;
+  assign fix_0xff_data_in = integration_3_data_out;
+  assign integration_3_busy_in = fix_0xff_o_busy;
+  assign integration_3_valid_in = valid_in;
+  assign integration_3_pixel_in = pixel_in;
+  assign auto_reset_hs2_in = \$7 ;
+  assign auto_reset_hs1_in = valid_out;
+  assign auto_reset_end_in = end_out;
+  assign integration_3_rst = \$5 ;
+  assign integration_3_clk = full_clk;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
+module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$148  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [9:0] \$23 ;
-  wire [9:0] \$24 ;
-  wire [9:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [9:0] \$32 ;
-  wire [9:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [9:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [9:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [9:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [9:0] \$51 ;
-  wire [9:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [9:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [9:0] \$66 ;
-  wire [9:0] \$67 ;
-  wire [9:0] \$7 ;
-  wire [9:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [8:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [33:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [8:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [8:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [8:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [8:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [33:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [9:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [33:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [33:0] dout;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [8:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* init = 9'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [8:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [8:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [33:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [8:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [33:0] r_data;
+  wire [33:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [8:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [33:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 10'h1fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 10'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 9'h1ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 9'h1fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 10'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [8:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [33:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [8:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [33:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [33:0] w_data;
+  wire [33:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [33:0] storage [510:0];
   initial begin
     storage[0] = 34'h000000000;
@@ -8678,238 +10822,212 @@ module unbuffered(we, replace, re, rst, clk, writable, readable, dout, level, di
     storage[509] = 34'h000000000;
     storage[510] = 34'h000000000;
   end
-  reg [33:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
+  reg [33:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [8:0];
+          \level$next  = \$35 [8:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [8:0];
+          \level$next  = \$46 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 9'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 9'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [8:0];
+          \level$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 34'h000000000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [8:0];
+          \produce$next  = \$13 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 9'h000;
+          \produce$next  = 9'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 9'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 34'h000000000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$148 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [8:0];
+          \consume$next  = \$22 [8:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 9'h000;
+          \consume$next  = 9'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 (* generator = "nMigen" *)
-module \unbuffered$3 (we, replace, re, rst, clk, writable, readable, dout, level, din);
-  wire \$10 ;
-  wire \$13 ;
-  wire \$15 ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
+module \unbuffered$3 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
+  reg \$auto$verilog_backend.cc:2184:dump_module$149  = 0;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$10 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$11 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$13 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$14 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
   wire \$17 ;
-  wire \$19 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$19 ;
+  (* src = "nmigen/lib/fifo.py:202" *)
   wire \$2 ;
-  wire \$21 ;
-  wire [10:0] \$23 ;
-  wire [10:0] \$24 ;
-  wire [10:0] \$26 ;
-  wire \$27 ;
-  wire \$30 ;
-  wire [10:0] \$32 ;
-  wire [10:0] \$33 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$20 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire [10:0] \$22 ;
+  (* src = "nmigen/lib/fifo.py:159" *)
+  wire \$23 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$26 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$28 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$29 ;
+  (* src = "nmigen/lib/fifo.py:233" *)
+  wire \$32 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
+  wire [10:0] \$34 ;
+  (* src = "nmigen/lib/fifo.py:234" *)
   wire [10:0] \$35 ;
-  wire \$36 ;
+  (* src = "nmigen/lib/fifo.py:206" *)
+  wire \$37 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$39 ;
+  (* src = "nmigen/lib/fifo.py:203" *)
   wire \$4 ;
-  wire \$41 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$40 ;
+  (* src = "nmigen/lib/fifo.py:235" *)
   wire \$43 ;
-  wire \$45 ;
-  wire \$46 ;
-  wire \$49 ;
-  wire [10:0] \$51 ;
-  wire [10:0] \$52 ;
-  wire \$54 ;
-  wire \$56 ;
-  wire \$57 ;
-  wire \$59 ;
-  wire [10:0] \$6 ;
-  wire \$61 ;
-  wire \$64 ;
-  wire [10:0] \$66 ;
-  wire [10:0] \$67 ;
-  wire [10:0] \$7 ;
-  wire [10:0] \$9 ;
-  (* src = "nmigen/lib/fifo.py:156" *)
-  reg [9:0] \$next\consume ;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  reg [19:0] \$next\dout ;
-  (* src = "nmigen/lib/fifo.py:138" *)
-  reg [9:0] \$next\level ;
-  (* src = "nmigen/lib/fifo.py:155" *)
-  reg [9:0] \$next\produce ;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  reg [9:0] \$next\rdport_storage_r_addr ;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  reg \$next\rdport_storage_r_en ;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  reg \$next\readable ;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  reg \$next\writable ;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  reg [9:0] \$next\wrport_storage_w_addr ;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  reg [19:0] \$next\wrport_storage_w_data ;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  reg \$next\wrport_storage_w_en ;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [10:0] \$45 ;
+  (* src = "nmigen/lib/fifo.py:236" *)
+  wire [10:0] \$46 ;
+  (* src = "nmigen/lib/fifo.py:219" *)
+  wire \$6 ;
+  (* src = "nmigen/lib/fifo.py:207" *)
+  wire \$8 ;
+  (* src = "clk_domains.py:5" *)
   input clk;
-  (* init = 10'h000 *)
-  (* src = "nmigen/lib/fifo.py:156" *)
+  wire clk;
+  (* src = "nmigen/lib/fifo.py:214" *)
   reg [9:0] consume = 10'h000;
-  (* src = "nmigen/lib/fifo.py:65" *)
-  input [19:0] din;
-  (* src = "nmigen/lib/fifo.py:69" *)
-  output [19:0] dout;
-  (* init = 10'h000 *)
-  (* src = "nmigen/lib/fifo.py:138" *)
+  (* src = "nmigen/lib/fifo.py:214" *)
+  reg [9:0] \consume$next ;
+  (* src = "nmigen/lib/fifo.py:190" *)
   output [9:0] level;
   reg [9:0] level = 10'h000;
-  (* init = 10'h000 *)
-  (* src = "nmigen/lib/fifo.py:155" *)
+  (* src = "nmigen/lib/fifo.py:190" *)
+  reg [9:0] \level$next ;
+  (* src = "nmigen/lib/fifo.py:213" *)
   reg [9:0] produce = 10'h000;
-  (* src = "nmigen/hdl/mem.py:81" *)
-  wire [9:0] rdport_storage_r_addr;
-  (* src = "nmigen/hdl/mem.py:83" *)
-  wire [19:0] rdport_storage_r_data;
-  (* src = "nmigen/hdl/mem.py:85" *)
-  wire rdport_storage_r_en;
-  (* src = "nmigen/lib/fifo.py:71" *)
-  input re;
-  (* src = "nmigen/lib/fifo.py:70" *)
-  output readable;
-  (* src = "nmigen/lib/fifo.py:139" *)
-  input replace;
+  (* src = "nmigen/lib/fifo.py:213" *)
+  reg [9:0] \produce$next ;
+  (* src = "nmigen/lib/fifo.py:78" *)
+  output [19:0] r_data;
+  wire [19:0] r_data;
+  (* src = "nmigen/lib/fifo.py:80" *)
+  input r_en;
+  wire r_en;
+  (* src = "nmigen/lib/fifo.py:79" *)
+  output r_rdy;
+  wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
-  (* src = "nmigen/lib/fifo.py:67" *)
-  input we;
-  (* src = "nmigen/lib/fifo.py:66" *)
-  output writable;
-  (* src = "nmigen/hdl/mem.py:146" *)
-  wire [9:0] wrport_storage_w_addr;
-  (* src = "nmigen/hdl/mem.py:148" *)
-  wire [19:0] wrport_storage_w_data;
-  (* src = "nmigen/hdl/mem.py:150" *)
-  wire wrport_storage_w_en;
-  assign \$10  = produce == (* src = "nmigen/lib/fifo.py:102" *) 1'h0;
-  assign \$9  = \$10  ? (* src = "nmigen/lib/fifo.py:164" *) 11'h3fe : \$7 ;
-  assign \$13  = writable | (* src = "nmigen/lib/fifo.py:161" *) replace;
-  assign \$15  = we & (* src = "nmigen/lib/fifo.py:161" *) \$13 ;
-  assign \$17  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$19  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$21  = \$17  & (* src = "nmigen/lib/fifo.py:149" *) \$19 ;
-  assign \$24  = produce + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$27  = produce == (* src = "nmigen/lib/fifo.py:95" *) 10'h3fe;
-  assign \$26  = \$27  ? (* src = "nmigen/lib/fifo.py:166" *) 11'h000 : \$24 ;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:144" *) 10'h3ff;
-  assign \$30  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$33  = consume + (* src = "nmigen/lib/fifo.py:95" *) 1'h1;
-  assign \$36  = consume == (* src = "nmigen/lib/fifo.py:95" *) 10'h3fe;
-  assign \$35  = \$36  ? (* src = "nmigen/lib/fifo.py:175" *) 11'h000 : \$33 ;
-  assign \$39  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$41  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$43  = \$39  & (* src = "nmigen/lib/fifo.py:149" *) \$41 ;
-  assign \$46  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$45  = ~ (* src = "nmigen/lib/fifo.py:177" *) \$46 ;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:145" *) 1'h0;
-  assign \$49  = \$43  & (* src = "nmigen/lib/fifo.py:177" *) \$45 ;
-  assign \$52  = level + (* src = "nmigen/lib/fifo.py:178" *) 1'h1;
-  assign \$54  = readable & (* src = "nmigen/lib/fifo.py:148" *) re;
-  assign \$57  = writable & (* src = "nmigen/lib/fifo.py:149" *) we;
-  assign \$59  = ~ (* src = "nmigen/lib/fifo.py:149" *) replace;
-  assign \$61  = \$57  & (* src = "nmigen/lib/fifo.py:149" *) \$59 ;
-  assign \$56  = ~ (* src = "nmigen/lib/fifo.py:179" *) \$61 ;
-  assign \$64  = \$54  & (* src = "nmigen/lib/fifo.py:179" *) \$56 ;
-  assign \$67  = level - (* src = "nmigen/lib/fifo.py:180" *) 1'h1;
-  assign \$7  = produce - (* src = "nmigen/lib/fifo.py:102" *) 1'h1;
-  always @(posedge clk)
-      level <= \$next\level ;
-  always @(posedge clk)
-      consume <= \$next\consume ;
-  always @(posedge clk)
-      produce <= \$next\produce ;
+  wire rst;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [9:0] storage_r_addr;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire [19:0] storage_r_data;
+  (* src = "nmigen/lib/fifo.py:211" *)
+  wire storage_r_en;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [9:0] storage_w_addr;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire [19:0] storage_w_data;
+  (* src = "nmigen/lib/fifo.py:210" *)
+  wire storage_w_en;
+  (* src = "nmigen/lib/fifo.py:74" *)
+  input [19:0] w_data;
+  wire [19:0] w_data;
+  (* src = "nmigen/lib/fifo.py:76" *)
+  input w_en;
+  wire w_en;
+  (* src = "nmigen/lib/fifo.py:75" *)
+  output w_rdy;
+  wire w_rdy;
   reg [19:0] storage [1022:0];
   initial begin
     storage[0] = 20'h00000;
@@ -9936,145 +12054,133 @@ module \unbuffered$3 (we, replace, re, rst, clk, writable, readable, dout, level
     storage[1021] = 20'h00000;
     storage[1022] = 20'h00000;
   end
-  reg [19:0] _0_;
   always @(posedge clk) begin
-    if (\$next\rdport_storage_r_en ) _0_ <= storage[\$next\rdport_storage_r_addr ];
-    if (\$next\wrport_storage_w_en ) storage[\$next\wrport_storage_w_addr ] <= \$next\wrport_storage_w_data ;
-  end
-  assign rdport_storage_r_data = _0_;
-  always @* begin
-    \$next\writable  = 1'h0;
-    \$next\writable  = \$2 ;
-  end
-  always @* begin
-    \$next\readable  = 1'h0;
-    \$next\readable  = \$4 ;
+    if (storage_w_en)
+      storage[storage_w_addr] <= storage_w_data;
   end
+  reg [19:0] _0_;
+  always @(posedge clk) begin
+    if (storage_r_en) begin
+      _0_ <= storage[storage_r_addr];
+    end
+  end
+  assign storage_r_data = _0_;
+  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 10'h3fe;
+  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 11'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 10'h3fe;
+  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 11'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 10'h3ff;
+  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  always @(posedge clk)
+    level <= \level$next ;
+  always @(posedge clk)
+    consume <= \consume$next ;
+  always @(posedge clk)
+    produce <= \produce$next ;
   always @* begin
-    \$next\level  = level;
-    casez (\$49 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \level$next  = level;
+    (* src = "nmigen/lib/fifo.py:233" *)
+    casez (\$32 )
+      /* src = "nmigen/lib/fifo.py:233" */
       1'h1:
-          \$next\level  = \$51 [9:0];
+          \level$next  = \$35 [9:0];
     endcase
-    casez (\$64 )
+    (* src = "nmigen/lib/fifo.py:235" *)
+    casez (\$43 )
+      /* src = "nmigen/lib/fifo.py:235" */
       1'h1:
-          \$next\level  = \$66 [9:0];
+          \level$next  = \$46 [9:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\level  = 10'h000;
-    endcase
-  end
-  always @* begin
-    \$next\wrport_storage_w_addr  = 10'h000;
-    \$next\wrport_storage_w_addr  = produce;
-    casez (replace)
-      1'h1:
-          \$next\wrport_storage_w_addr  = \$6 [9:0];
+          \level$next  = 10'h000;
     endcase
   end
   always @* begin
-    \$next\wrport_storage_w_data  = 20'h00000;
-    \$next\wrport_storage_w_data  = din;
-  end
-  always @* begin
-    \$next\wrport_storage_w_en  = 1'h0;
-    \$next\wrport_storage_w_en  = \$15 ;
-  end
-  always @* begin
-    \$next\produce  = produce;
-    casez (\$21 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \produce$next  = produce;
+    (* src = "nmigen/lib/fifo.py:221" *)
+    casez (\$8 )
+      /* src = "nmigen/lib/fifo.py:221" */
       1'h1:
-          \$next\produce  = \$23 [9:0];
+          \produce$next  = \$13 [9:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\produce  = 10'h000;
+          \produce$next  = 10'h000;
     endcase
   end
   always @* begin
-    \$next\rdport_storage_r_addr  = 10'h000;
-    \$next\rdport_storage_r_addr  = consume;
-  end
-  always @* begin
-    \$next\dout  = 20'h00000;
-    \$next\dout  = rdport_storage_r_data;
-  end
-  always @* begin
-    \$next\rdport_storage_r_en  = 1'h0;
-    \$next\rdport_storage_r_en  = re;
-  end
-  always @* begin
-    \$next\consume  = consume;
-    casez (\$30 )
+    if (\$auto$verilog_backend.cc:2184:dump_module$149 ) begin end
+    \consume$next  = consume;
+    (* src = "nmigen/lib/fifo.py:230" *)
+    casez (\$17 )
+      /* src = "nmigen/lib/fifo.py:230" */
       1'h1:
-          \$next\consume  = \$32 [9:0];
+          \consume$next  = \$22 [9:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\consume  = 10'h000;
+          \consume$next  = 10'h000;
     endcase
   end
-  assign \$6  = \$9 ;
-  assign \$23  = \$26 ;
-  assign \$32  = \$35 ;
-  assign \$51  = \$52 ;
-  assign \$66  = \$67 ;
-  assign rdport_storage_r_en = \$next\rdport_storage_r_en ;
-  assign dout = \$next\dout ;
-  assign rdport_storage_r_addr = \$next\rdport_storage_r_addr ;
-  assign wrport_storage_w_en = \$next\wrport_storage_w_en ;
-  assign wrport_storage_w_data = \$next\wrport_storage_w_data ;
-  assign wrport_storage_w_addr = \$next\wrport_storage_w_addr ;
-  assign readable = \$next\readable ;
-  assign writable = \$next\writable ;
+  assign \$10  = \$13 ;
+  assign \$19  = \$22 ;
+  assign \$34  = \$35 ;
+  assign \$45  = \$46 ;
+  assign storage_r_en = r_en;
+  assign r_data = storage_r_data;
+  assign storage_r_addr = consume;
+  assign storage_w_en = \$6 ;
+  assign storage_w_data = w_data;
+  assign storage_w_addr = produce;
+  assign r_rdy = \$4 ;
+  assign w_rdy = \$2 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
 (* generator = "nMigen" *)
-module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_input, data_out, valid_out, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [15:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [14:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [3:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [5:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [5:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [40:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* \nmigen.hierarchy  = "top.top_module.integration_3.vbits_to_cbits" *)
+module vbits_to_cbits(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, busy_in, data_out, valid_out, end_out, clk);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/mem.py:97" *)
+  wire busy_in;
+  (* src = "clk_domains.py:5" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [15:0] data_out;
+  wire [15:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [14:0] enc_in;
+  wire [14:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [3:0] enc_in_ctr;
+  wire [3:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [5:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -10097,6 +12203,7 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [5:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -10117,10 +12224,13 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
   wire output_handler_valid_out;
   (* src = "clk_domains.py:5" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -10147,75 +12257,19 @@ module vbits_to_cbits(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, latch_inp
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 15'h0000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 16'h0000;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 4'h0;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 41'h00000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 6'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 6'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
diff --git a/verilog_src/normalize.v b/verilog_src/normalize.v
index ab903d9..a166349 100644
--- a/verilog_src/normalize.v
+++ b/verilog_src/normalize.v
@@ -1,108 +1,175 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.anonymous" *)
 (* generator = "nMigen" *)
-module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, end_out, valid);
+(* \nmigen.hierarchy  = "top.U$$0" *)
+module \U$$0 (valid, end_in, val_in_mns, ssss, val_out, valid_o, end_out, rst, clk, val_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$5  = 0;
+  (* src = "normalize.py:156" *)
   wire \$1 ;
+  (* src = "normalize.py:81" *)
   wire \$101 ;
+  (* src = "normalize.py:65" *)
   wire \$103 ;
+  (* src = "normalize.py:65" *)
   wire \$105 ;
+  (* src = "normalize.py:81" *)
   wire \$107 ;
+  (* src = "normalize.py:65" *)
   wire \$109 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$11 ;
+  (* src = "normalize.py:65" *)
   wire \$111 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$12 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$14 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$15 ;
+  (* src = "normalize.py:65" *)
   wire \$17 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$19 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$20 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$22 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$23 ;
+  (* src = "normalize.py:81" *)
   wire \$25 ;
+  (* src = "normalize.py:65" *)
   wire \$27 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$29 ;
+  (* src = "normalize.py:81" *)
   wire \$3 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$30 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$32 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$33 ;
+  (* src = "normalize.py:65" *)
   wire \$35 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$37 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$38 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$40 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$41 ;
+  (* src = "normalize.py:81" *)
   wire \$43 ;
+  (* src = "normalize.py:81" *)
   wire \$45 ;
+  (* src = "normalize.py:65" *)
   wire \$47 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$49 ;
+  (* src = "normalize.py:81" *)
   wire \$5 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$50 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$52 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$53 ;
+  (* src = "normalize.py:65" *)
   wire \$55 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$57 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$58 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$60 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$61 ;
+  (* src = "normalize.py:81" *)
   wire \$63 ;
+  (* src = "normalize.py:65" *)
   wire \$65 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$67 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$68 ;
+  (* src = "normalize.py:81" *)
   wire \$7 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$70 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$71 ;
+  (* src = "normalize.py:65" *)
   wire \$73 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$75 ;
+  (* src = "normalize.py:67" *)
   wire [17:0] \$76 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$78 ;
+  (* src = "normalize.py:72" *)
   wire [17:0] \$79 ;
+  (* src = "normalize.py:156" *)
   wire \$81 ;
+  (* src = "normalize.py:81" *)
   wire \$83 ;
+  (* src = "normalize.py:81" *)
   wire \$85 ;
+  (* src = "normalize.py:81" *)
   wire \$87 ;
+  (* src = "normalize.py:65" *)
   wire \$89 ;
+  (* src = "normalize.py:65" *)
   wire \$9 ;
+  (* src = "normalize.py:65" *)
   wire \$91 ;
+  (* src = "normalize.py:81" *)
   wire \$93 ;
+  (* src = "normalize.py:65" *)
   wire \$95 ;
+  (* src = "normalize.py:65" *)
   wire \$97 ;
+  (* src = "normalize.py:81" *)
   wire \$99 ;
-  (* src = "normalize.py:133" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:126" *)
-  reg [4:0] \$next\ssss ;
-  (* src = "normalize.py:124" *)
-  reg [15:0] \$next\val_out ;
-  (* src = "normalize.py:129" *)
-  reg \$next\valid_o ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:132" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "normalize.py:133" *)
   output end_out;
   reg end_out = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "normalize.py:133" *)
+  reg \end_out$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 5'h00 *)
+  wire rst;
   (* src = "normalize.py:126" *)
   output [4:0] ssss;
   reg [4:0] ssss = 5'h00;
+  (* src = "normalize.py:126" *)
+  reg [4:0] \ssss$next ;
   (* src = "normalize.py:119" *)
   input [16:0] val_in;
+  wire [16:0] val_in;
   (* src = "normalize.py:121" *)
   input [16:0] val_in_mns;
-  (* init = 16'h0000 *)
+  wire [16:0] val_in_mns;
   (* src = "normalize.py:124" *)
   output [15:0] val_out;
   reg [15:0] val_out = 16'h0000;
+  (* src = "normalize.py:124" *)
+  reg [15:0] \val_out$next ;
   (* src = "normalize.py:128" *)
   input valid;
-  (* init = 1'h0 *)
+  wire valid;
   (* src = "normalize.py:129" *)
   output valid_o;
   reg valid_o = 1'h0;
+  (* src = "normalize.py:129" *)
+  reg \valid_o$next ;
   assign \$9  = val_in_mns[16:1] == (* src = "normalize.py:65" *) 16'hffff;
   assign \$99  = val_in_mns[16:12] == (* src = "normalize.py:81" *) 5'h1f;
   assign \$101  = val_in_mns[16:10] == (* src = "normalize.py:81" *) 7'h7f;
@@ -152,245 +219,368 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$95  = val_in_mns[16:5] == (* src = "normalize.py:65" *) 12'hfff;
   assign \$97  = val_in_mns[16:7] == (* src = "normalize.py:65" *) 10'h3ff;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      valid_o <= \$next\valid_o ;
+    valid_o <= \valid_o$next ;
   always @(posedge clk)
-      ssss <= \$next\ssss ;
+    ssss <= \ssss$next ;
   always @(posedge clk)
-      val_out <= \$next\val_out ;
+    val_out <= \val_out$next ;
   always @* begin
-    \$next\val_out  = val_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \val_out$next  = val_out;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$1 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$3 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$5 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$7 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$9 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$11 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$14 [15:0];
+                                        \val_out$next  = \$12 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$15 [15:0];
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$17 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$19 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$22 [15:0];
+                                        \val_out$next  = \$20 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$23 [15:0];
                                   endcase
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$25 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$27 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$29 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$32 [15:0];
+                                        \val_out$next  = \$30 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$33 [15:0];
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$35 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$37 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$40 [15:0];
+                                        \val_out$next  = \$38 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$41 [15:0];
                                   endcase
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$43 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$45 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$47 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$49 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$52 [15:0];
+                                        \val_out$next  = \$50 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$53 [15:0];
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$55 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$57 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$60 [15:0];
+                                        \val_out$next  = \$58 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$61 [15:0];
                                   endcase
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$63 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$65 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$67 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$70 [15:0];
+                                        \val_out$next  = \$68 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$71 [15:0];
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$73 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\val_out  = \$75 [15:0];
-                                    1'hz:
-                                        \$next\val_out  = \$78 [15:0];
+                                        \val_out$next  = \$76 [15:0];
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \val_out$next  = \$79 [15:0];
                                   endcase
                             endcase
                       endcase
                 endcase
-            1'hz:
-                \$next\val_out  = val_in[15:0];
+            /* src = "normalize.py:161" */
+            default:
+                \val_out$next  = val_in[15:0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\val_out  = 16'h0000;
+          \val_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\ssss  = ssss;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \ssss$next  = ssss;
+    (* src = "normalize.py:154" *)
     casez (valid)
+      /* src = "normalize.py:154" */
       1'h1:
+          (* src = "normalize.py:156" *)
           casez (\$81 )
+            /* src = "normalize.py:156" */
             1'h1:
+                (* src = "normalize.py:81" *)
                 casez (\$83 )
+                  /* src = "normalize.py:81" */
                   1'h1:
+                      (* src = "normalize.py:81" *)
                       casez (\$85 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$87 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$89 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h01;
-                                    1'hz:
-                                        \$next\ssss  = 5'h02;
+                                        \ssss$next  = 5'h01;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h02;
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$91 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h03;
-                                    1'hz:
-                                        \$next\ssss  = 5'h04;
+                                        \ssss$next  = 5'h03;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h04;
                                   endcase
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$93 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$95 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h05;
-                                    1'hz:
-                                        \$next\ssss  = 5'h06;
+                                        \ssss$next  = 5'h05;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h06;
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$97 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h07;
-                                    1'hz:
-                                        \$next\ssss  = 5'h08;
+                                        \ssss$next  = 5'h07;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h08;
                                   endcase
                             endcase
                       endcase
-                  1'hz:
+                  /* src = "normalize.py:83" */
+                  default:
+                      (* src = "normalize.py:81" *)
                       casez (\$99 )
+                        /* src = "normalize.py:81" */
                         1'h1:
+                            (* src = "normalize.py:81" *)
                             casez (\$101 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$103 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h09;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0a;
+                                        \ssss$next  = 5'h09;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0a;
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$105 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0b;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0c;
+                                        \ssss$next  = 5'h0b;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0c;
                                   endcase
                             endcase
-                        1'hz:
+                        /* src = "normalize.py:83" */
+                        default:
+                            (* src = "normalize.py:81" *)
                             casez (\$107 )
+                              /* src = "normalize.py:81" */
                               1'h1:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$109 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0d;
-                                    1'hz:
-                                        \$next\ssss  = 5'h0e;
+                                        \ssss$next  = 5'h0d;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h0e;
                                   endcase
-                              1'hz:
+                              /* src = "normalize.py:83" */
+                              default:
+                                  (* src = "normalize.py:65" *)
                                   casez (\$111 )
+                                    /* src = "normalize.py:65" */
                                     1'h1:
-                                        \$next\ssss  = 5'h0f;
-                                    1'hz:
-                                        \$next\ssss  = 5'h10;
+                                        \ssss$next  = 5'h0f;
+                                    /* src = "normalize.py:70" */
+                                    default:
+                                        \ssss$next  = 5'h10;
                                   endcase
                             endcase
                       endcase
                 endcase
-            1'hz:
+            /* src = "normalize.py:161" */
+            default:
               begin
-                \$next\ssss  = 5'h00;
+                \ssss$next  = 5'h00;
+                (* src = "normalize.py:96" *)
                 casez ({ val_in[0], val_in[1], val_in[2], val_in[3], val_in[4], val_in[5], val_in[6], val_in[7], val_in[8], val_in[9], val_in[10], val_in[11], val_in[12], val_in[13], val_in[14], val_in[15] })
-                  16'bzzzzzzzzzzzzzzz1:
-                      \$next\ssss  = 5'h10;
-                  16'bzzzzzzzzzzzzzz1z:
-                      \$next\ssss  = 5'h0f;
-                  16'bzzzzzzzzzzzzz1zz:
-                      \$next\ssss  = 5'h0e;
-                  16'bzzzzzzzzzzzz1zzz:
-                      \$next\ssss  = 5'h0d;
-                  16'bzzzzzzzzzzz1zzzz:
-                      \$next\ssss  = 5'h0c;
-                  16'bzzzzzzzzzz1zzzzz:
-                      \$next\ssss  = 5'h0b;
-                  16'bzzzzzzzzz1zzzzzz:
-                      \$next\ssss  = 5'h0a;
-                  16'bzzzzzzzz1zzzzzzz:
-                      \$next\ssss  = 5'h09;
-                  16'bzzzzzzz1zzzzzzzz:
-                      \$next\ssss  = 5'h08;
-                  16'bzzzzzz1zzzzzzzzz:
-                      \$next\ssss  = 5'h07;
-                  16'bzzzzz1zzzzzzzzzz:
-                      \$next\ssss  = 5'h06;
-                  16'bzzzz1zzzzzzzzzzz:
-                      \$next\ssss  = 5'h05;
-                  16'bzzz1zzzzzzzzzzzz:
-                      \$next\ssss  = 5'h04;
-                  16'bzz1zzzzzzzzzzzzz:
-                      \$next\ssss  = 5'h03;
-                  16'bz1zzzzzzzzzzzzzz:
-                      \$next\ssss  = 5'h02;
-                  16'b1zzzzzzzzzzzzzzz:
-                      \$next\ssss  = 5'h01;
+                  /* src = "normalize.py:96" */
+                  16'b???????????????1:
+                      \ssss$next  = 5'h10;
+                  /* src = "normalize.py:99" */
+                  16'b??????????????1?:
+                      \ssss$next  = 5'h0f;
+                  /* src = "normalize.py:99" */
+                  16'b?????????????1??:
+                      \ssss$next  = 5'h0e;
+                  /* src = "normalize.py:99" */
+                  16'b????????????1???:
+                      \ssss$next  = 5'h0d;
+                  /* src = "normalize.py:99" */
+                  16'b???????????1????:
+                      \ssss$next  = 5'h0c;
+                  /* src = "normalize.py:99" */
+                  16'b??????????1?????:
+                      \ssss$next  = 5'h0b;
+                  /* src = "normalize.py:99" */
+                  16'b?????????1??????:
+                      \ssss$next  = 5'h0a;
+                  /* src = "normalize.py:99" */
+                  16'b????????1???????:
+                      \ssss$next  = 5'h09;
+                  /* src = "normalize.py:99" */
+                  16'b???????1????????:
+                      \ssss$next  = 5'h08;
+                  /* src = "normalize.py:99" */
+                  16'b??????1?????????:
+                      \ssss$next  = 5'h07;
+                  /* src = "normalize.py:99" */
+                  16'b?????1??????????:
+                      \ssss$next  = 5'h06;
+                  /* src = "normalize.py:99" */
+                  16'b????1???????????:
+                      \ssss$next  = 5'h05;
+                  /* src = "normalize.py:99" */
+                  16'b???1????????????:
+                      \ssss$next  = 5'h04;
+                  /* src = "normalize.py:99" */
+                  16'b??1?????????????:
+                      \ssss$next  = 5'h03;
+                  /* src = "normalize.py:99" */
+                  16'b?1??????????????:
+                      \ssss$next  = 5'h02;
+                  /* src = "normalize.py:99" */
+                  16'b1???????????????:
+                      \ssss$next  = 5'h01;
                 endcase
               end
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\ssss  = 5'h00;
+          \ssss$next  = 5'h00;
     endcase
   end
   always @* begin
-    \$next\valid_o  = valid_o;
-    \$next\valid_o  = valid;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \valid_o$next  = valid;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_o  = 1'h0;
+          \valid_o$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$5 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   assign \$11  = \$12 ;
@@ -411,113 +601,75 @@ module anonymous(val_in, val_in_mns, end_in, rst, clk, val_out, ssss, valid_o, e
   assign \$78  = \$79 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(valid_in, end_in, vals_in_mns, rst, clk, val_out, valid_out, ssss, end_out, val_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(val_out, val_in, valid_in, valid_out, ssss, end_in, end_out, clk, rst, vals_in_mns);
   (* src = "normalize.py:132" *)
-  reg \$next\end_in$2 ;
-  (* src = "normalize.py:208" *)
-  reg \$next\end_out ;
-  (* src = "normalize.py:201" *)
-  reg [4:0] \$next\ssss ;
+  wire \U$$0_end_in ;
+  (* src = "normalize.py:133" *)
+  wire \U$$0_end_out ;
+  (* src = "normalize.py:126" *)
+  wire [4:0] \U$$0_ssss ;
   (* src = "normalize.py:119" *)
-  reg [16:0] \$next\val_in$1 ;
+  wire [16:0] \U$$0_val_in ;
   (* src = "normalize.py:121" *)
-  reg [16:0] \$next\val_in_mns ;
-  (* src = "normalize.py:199" *)
-  reg [15:0] \$next\val_out ;
+  wire [16:0] \U$$0_val_in_mns ;
+  (* src = "normalize.py:124" *)
+  wire [15:0] \U$$0_val_out ;
   (* src = "normalize.py:128" *)
-  reg \$next\valid ;
-  (* src = "normalize.py:204" *)
-  reg \$next\valid_out ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire \U$$0_valid ;
+  (* src = "normalize.py:129" *)
+  wire \U$$0_valid_o ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "normalize.py:207" *)
   input end_in;
-  (* src = "normalize.py:132" *)
-  wire \end_in$2 ;
+  wire end_in;
   (* src = "normalize.py:208" *)
   output end_out;
-  (* src = "normalize.py:133" *)
-  wire \end_out$5 ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire end_out;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "normalize.py:201" *)
   output [4:0] ssss;
-  (* src = "normalize.py:126" *)
-  wire [4:0] \ssss$4 ;
+  wire [4:0] ssss;
   (* src = "normalize.py:194" *)
   input [16:0] val_in;
-  (* src = "normalize.py:119" *)
-  wire [16:0] \val_in$1 ;
-  (* src = "normalize.py:121" *)
-  wire [16:0] val_in_mns;
+  wire [16:0] val_in;
   (* src = "normalize.py:199" *)
   output [15:0] val_out;
-  (* src = "normalize.py:124" *)
-  wire [15:0] \val_out$3 ;
-  (* src = "normalize.py:128" *)
-  wire valid;
+  wire [15:0] val_out;
   (* src = "normalize.py:203" *)
   input valid_in;
-  (* src = "normalize.py:129" *)
-  wire valid_o;
+  wire valid_in;
   (* src = "normalize.py:204" *)
   output valid_out;
+  wire valid_out;
   (* src = "normalize.py:196" *)
   input [16:0] vals_in_mns;
-  anonymous \$6  (
+  wire [16:0] vals_in_mns;
+  \U$$0  \U$$0  (
     .clk(clk),
-    .end_in(\end_in$2 ),
-    .end_out(\end_out$5 ),
+    .end_in(\U$$0_end_in ),
+    .end_out(\U$$0_end_out ),
     .rst(rst),
-    .ssss(\ssss$4 ),
-    .val_in(\val_in$1 ),
-    .val_in_mns(val_in_mns),
-    .val_out(\val_out$3 ),
-    .valid(valid),
-    .valid_o(valid_o)
+    .ssss(\U$$0_ssss ),
+    .val_in(\U$$0_val_in ),
+    .val_in_mns(\U$$0_val_in_mns ),
+    .val_out(\U$$0_val_out ),
+    .valid(\U$$0_valid ),
+    .valid_o(\U$$0_valid_o )
   );
-  always @* begin
-    \$next\val_in$1  = 17'h00000;
-    \$next\val_in$1  = val_in;
-  end
-  always @* begin
-    \$next\valid  = 1'h0;
-    \$next\valid  = valid_in;
-  end
-  always @* begin
-    \$next\end_in$2  = 1'h0;
-    \$next\end_in$2  = end_in;
-  end
-  always @* begin
-    \$next\val_in_mns  = 17'h00000;
-    \$next\val_in_mns  = vals_in_mns;
-  end
-  always @* begin
-    \$next\ssss  = 5'h00;
-    \$next\ssss  = \ssss$4 ;
-  end
-  always @* begin
-    \$next\val_out  = 16'h0000;
-    \$next\val_out  = \val_out$3 ;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = valid_o;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = \end_out$5 ;
-  end
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign val_out = \$next\val_out ;
-  assign ssss = \$next\ssss ;
-  assign val_in_mns = \$next\val_in_mns ;
-  assign \end_in$2  = \$next\end_in$2 ;
-  assign valid = \$next\valid ;
-  assign \val_in$1  = \$next\val_in$1 ;
+  assign end_out = \U$$0_end_out ;
+  assign valid_out = \U$$0_valid_o ;
+  assign val_out = \U$$0_val_out ;
+  assign ssss = \U$$0_ssss ;
+  assign \U$$0_val_in_mns  = vals_in_mns;
+  assign \U$$0_end_in  = end_in;
+  assign \U$$0_valid  = valid_in;
+  assign \U$$0_val_in  = val_in;
 endmodule
 
diff --git a/verilog_src/predictor_p1_c4_pix1_2.v b/verilog_src/predictor_p1_c4_pix1_2.v
index 03bffca..ddbff33 100644
--- a/verilog_src/predictor_p1_c4_pix1_2.v
+++ b/verilog_src/predictor_p1_c4_pix1_2.v
@@ -1,137 +1,138 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_out, end_out, debug_counter, valid_in);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(\pixel_in$1 , pixel_out, \pixel_out$2 , predic_out, \predic_out$3 , valid_in, valid_out, new_row, end_in, end_out, debug_counter, clk, rst, pixel_in);
+  reg \$auto$verilog_backend.cc:2184:dump_module$19  = 0;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$10 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$12 ;
+  (* src = "predictor_p1_c4_pix1_2.py:117" *)
   wire \$14 ;
+  (* src = "predictor_p1_c4_pix1_2.py:119" *)
   wire \$16 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$18 ;
+  (* src = "predictor_p1_c4_pix1_2.py:124" *)
   wire [32:0] \$19 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$21 ;
+  (* src = "predictor_p1_c4_pix1_2.py:130" *)
   wire [1:0] \$22 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$27 ;
+  (* src = "predictor_p1_c4_pix1_2.py:138" *)
   wire [1:0] \$28 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$4 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$6 ;
+  (* src = "predictor_p1_c4_pix1_2.py:115" *)
   wire \$8 ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [15:0] \$next\buff ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [15:0] \$next\buff$24 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [15:0] \$next\buff$25 ;
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
-  reg [15:0] \$next\buff$26 ;
-  (* src = "predictor_p1_c4_pix1_2.py:108" *)
-  reg \$next\buff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:84" *)
-  reg [31:0] \$next\debug_counter ;
-  (* src = "predictor_p1_c4_pix1_2.py:81" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [15:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [15:0] \$next\lbuff$30 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [15:0] \$next\lbuff$31 ;
-  (* src = "predictor_p1_c4_pix1_2.py:106" *)
-  reg [15:0] \$next\lbuff$32 ;
-  (* src = "predictor_p1_c4_pix1_2.py:109" *)
-  reg \$next\lbuff_ctr ;
-  (* src = "predictor_p1_c4_pix1_2.py:112" *)
-  reg \$next\new_row_latch ;
-  (* src = "predictor_p1_c4_pix1_2.py:111" *)
-  reg \$next\new_row_reg ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [15:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:67" *)
-  reg [15:0] \$next\pixel_out$2 ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [15:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_pix1_2.py:70" *)
-  reg [15:0] \$next\predic_out$3 ;
-  (* src = "predictor_p1_c4_pix1_2.py:77" *)
-  reg \$next\valid_out ;
-  (* init = 16'h8000 *)
-  (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [15:0] buff = 16'h8000;
-  (* init = 16'h8000 *)
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [15:0] \buff$24  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [15:0] \buff$24$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [15:0] \buff$25  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [15:0] \buff$25$next ;
   (* src = "predictor_p1_c4_pix1_2.py:100" *)
   reg [15:0] \buff$26  = 16'h8000;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [15:0] \buff$26$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:100" *)
+  reg [15:0] \buff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:108" *)
   reg buff_ctr = 1'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "predictor_p1_c4_pix1_2.py:108" *)
+  reg \buff_ctr$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "predictor_p1_c4_pix1_2.py:84" *)
   output [31:0] debug_counter;
   reg [31:0] debug_counter = 32'd0;
+  (* src = "predictor_p1_c4_pix1_2.py:84" *)
+  reg [31:0] \debug_counter$next ;
   (* src = "predictor_p1_c4_pix1_2.py:80" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_pix1_2.py:81" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:81" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [15:0] lbuff = 16'h8000;
-  (* init = 16'h8000 *)
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [15:0] \lbuff$30  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [15:0] \lbuff$30$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [15:0] \lbuff$31  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [15:0] \lbuff$31$next ;
   (* src = "predictor_p1_c4_pix1_2.py:106" *)
   reg [15:0] \lbuff$32  = 16'h8000;
-  (* init = 1'h0 *)
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [15:0] \lbuff$32$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:106" *)
+  reg [15:0] \lbuff$next ;
   (* src = "predictor_p1_c4_pix1_2.py:109" *)
   reg lbuff_ctr = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:109" *)
+  reg \lbuff_ctr$next ;
   (* src = "predictor_p1_c4_pix1_2.py:73" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_pix1_2.py:112" *)
   wire new_row_latch;
-  (* init = 1'h0 *)
   (* src = "predictor_p1_c4_pix1_2.py:111" *)
   reg new_row_reg = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:111" *)
+  reg \new_row_reg$next ;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [15:0] pixel_in;
+  wire [15:0] pixel_in;
   (* src = "predictor_p1_c4_pix1_2.py:64" *)
   input [15:0] \pixel_in$1 ;
-  (* init = 16'h0000 *)
+  wire [15:0] \pixel_in$1 ;
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [15:0] pixel_out;
   reg [15:0] pixel_out = 16'h0000;
-  (* init = 16'h0000 *)
   (* src = "predictor_p1_c4_pix1_2.py:67" *)
   output [15:0] \pixel_out$2 ;
   reg [15:0] \pixel_out$2  = 16'h0000;
-  (* init = 16'h0000 *)
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [15:0] \pixel_out$2$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:67" *)
+  reg [15:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [15:0] predic_out;
   reg [15:0] predic_out = 16'h0000;
-  (* init = 16'h0000 *)
   (* src = "predictor_p1_c4_pix1_2.py:70" *)
   output [15:0] \predic_out$3 ;
   reg [15:0] \predic_out$3  = 16'h0000;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [15:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_pix1_2.py:70" *)
+  reg [15:0] \predic_out$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_pix1_2.py:76" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_pix1_2.py:77" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_pix1_2.py:77" *)
+  reg \valid_out$next ;
   assign \$10  = valid_in == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$12  = lbuff_ctr == (* src = "predictor_p1_c4_pix1_2.py:117" *) 1'h1;
   assign \$14  = \$10  & (* src = "predictor_p1_c4_pix1_2.py:117" *) \$12 ;
@@ -143,311 +144,430 @@ module top(new_row, pixel_in, \pixel_in$1 , end_in, rst, clk, pixel_out, \pixel_
   assign \$6  = new_row == (* src = "predictor_p1_c4_pix1_2.py:115" *) 1'h1;
   assign \$8  = \$4  & (* src = "predictor_p1_c4_pix1_2.py:115" *) \$6 ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      \buff$26  <= \$next\buff$26 ;
+    \buff$26  <= \buff$26$next ;
   always @(posedge clk)
-      \buff$25  <= \$next\buff$25 ;
+    \buff$25  <= \buff$25$next ;
   always @(posedge clk)
-      \buff$24  <= \$next\buff$24 ;
+    \buff$24  <= \buff$24$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      buff_ctr <= \$next\buff_ctr ;
+    buff_ctr <= \buff_ctr$next ;
   always @(posedge clk)
-      \pixel_out$2  <= \$next\pixel_out$2 ;
+    \pixel_out$2  <= \pixel_out$2$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      debug_counter <= \$next\debug_counter ;
+    debug_counter <= \debug_counter$next ;
   always @(posedge clk)
-      new_row_reg <= \$next\new_row_reg ;
+    new_row_reg <= \new_row_reg$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \predic_out$3  <= \$next\predic_out$3 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \lbuff$32  <= \$next\lbuff$32 ;
+    \lbuff$32  <= \lbuff$32$next ;
   always @(posedge clk)
-      \lbuff$31  <= \$next\lbuff$31 ;
+    \lbuff$31  <= \lbuff$31$next ;
   always @(posedge clk)
-      \lbuff$30  <= \$next\lbuff$30 ;
+    \lbuff$30  <= \lbuff$30$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      lbuff_ctr <= \$next\lbuff_ctr ;
+    lbuff_ctr <= \lbuff_ctr$next ;
   always @* begin
-    \$next\new_row_reg  = new_row_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \new_row_reg$next  = new_row_reg;
+    (* src = "predictor_p1_c4_pix1_2.py:115" *)
     casez ({ \$14 , \$8  })
-      2'bz1:
-          \$next\new_row_reg  = 1'h1;
-      2'b1z:
-          \$next\new_row_reg  = 1'h0;
-    endcase
+      /* src = "predictor_p1_c4_pix1_2.py:115" */
+      2'b?1:
+          \new_row_reg$next  = 1'h1;
+      /* src = "predictor_p1_c4_pix1_2.py:117" */
+      2'b1?:
+          \new_row_reg$next  = 1'h0;
+    endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row_reg  = 1'h0;
+          \new_row_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_row_latch  = 1'h0;
-    \$next\new_row_latch  = \$16 ;
-  end
-  always @* begin
-    \$next\lbuff_ctr  = lbuff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff_ctr$next  = lbuff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
-                \$next\lbuff_ctr  = \$27 [0];
+                \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff_ctr  = 1'h0;
+          \lbuff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff  = pixel_in;
+                      \lbuff$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 16'h8000;
+          \lbuff$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\lbuff$30  = \lbuff$30 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$30$next  = \lbuff$30 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h0:
-                      \$next\lbuff$30  = \pixel_in$1 ;
+                      \lbuff$30$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$30  = 16'h8000;
+          \lbuff$30$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\lbuff$31  = \lbuff$31 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$31$next  = \lbuff$31 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$31  = pixel_in;
+                      \lbuff$31$next  = pixel_in;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$31  = 16'h8000;
+          \lbuff$31$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\lbuff$32  = \lbuff$32 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$32$next  = \lbuff$32 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:137" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:137" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:139" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
+                  1'h0:
+                      /* empty */;
+                  /* src = "predictor_p1_c4_pix1_2.py:141" */
                   1'h1:
-                      \$next\lbuff$32  = \pixel_in$1 ;
+                      \lbuff$32$next  = \pixel_in$1 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$32  = 16'h8000;
+          \lbuff$32$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out  = lbuff;
+                      \predic_out$next  = lbuff;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out  = \lbuff$31 ;
+                      \predic_out$next  = \lbuff$31 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out  = buff;
+                      \predic_out$next  = buff;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out  = \buff$25 ;
+                      \predic_out$next  = \buff$25 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 16'h0000;
+          \predic_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\predic_out$3  = \predic_out$3 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:145" *)
           casez (new_row_latch)
+            /* src = "predictor_p1_c4_pix1_2.py:145" */
             1'h1:
+                (* src = "predictor_p1_c4_pix1_2.py:146" *)
                 casez (lbuff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h0:
-                      \$next\predic_out$3  = \lbuff$30 ;
+                      \predic_out$3$next  = \lbuff$30 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:148" */
                   1'h1:
-                      \$next\predic_out$3  = \lbuff$32 ;
+                      \predic_out$3$next  = \lbuff$32 ;
                 endcase
-            1'hz:
+            /* src = "predictor_p1_c4_pix1_2.py:150" */
+            default:
+                (* src = "predictor_p1_c4_pix1_2.py:151" *)
                 casez (buff_ctr)
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h0:
-                      \$next\predic_out$3  = \buff$24 ;
+                      \predic_out$3$next  = \buff$24 ;
+                  /* src = "predictor_p1_c4_pix1_2.py:153" */
                   1'h1:
-                      \$next\predic_out$3  = \buff$26 ;
+                      \predic_out$3$next  = \buff$26 ;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$3  = 16'h0000;
+          \predic_out$3$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\debug_counter  = debug_counter;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \debug_counter$next  = debug_counter;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\debug_counter  = \$18 [31:0];
+          \debug_counter$next  = \$19 [31:0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\debug_counter  = 32'd0;
+          \debug_counter$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 16'h0000;
+          \pixel_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$2  = \pixel_out$2 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \pixel_out$2$next  = \pixel_out$2 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\pixel_out$2  = \pixel_in$1 ;
+          \pixel_out$2$next  = \pixel_in$1 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$2  = 16'h0000;
+          \pixel_out$2$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\buff_ctr  = buff_ctr;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff_ctr$next  = buff_ctr;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
-          \$next\buff_ctr  = \$21 [0];
+          \buff_ctr$next  = \$22 [0];
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_ctr  = 1'h0;
+          \buff_ctr$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff  = pixel_in;
+                \buff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 16'h8000;
+          \buff$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\buff$24  = \buff$24 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$24$next  = \buff$24 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h0:
-                \$next\buff$24  = \pixel_in$1 ;
+                \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$24  = 16'h8000;
+          \buff$24$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\buff$25  = \buff$25 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$25$next  = \buff$25 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$25  = pixel_in;
+                \buff$25$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$25  = 16'h8000;
+          \buff$25$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\buff$26  = \buff$26 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$26$next  = \buff$26 ;
+    (* src = "predictor_p1_c4_pix1_2.py:122" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_pix1_2.py:122" */
       1'h1:
+          (* src = "predictor_p1_c4_pix1_2.py:131" *)
           casez (buff_ctr)
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
+            1'h0:
+                /* empty */;
+            /* src = "predictor_p1_c4_pix1_2.py:133" */
             1'h1:
-                \$next\buff$26  = \pixel_in$1 ;
+                \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$26  = 16'h8000;
+          \buff$26$next  = 16'h8000;
     endcase
   end
   assign \$18  = \$19 ;
   assign \$21  = \$22 ;
   assign \$27  = \$28 ;
-  assign new_row_latch = \$next\new_row_latch ;
+  assign new_row_latch = \$16 ;
 endmodule
 
diff --git a/verilog_src/predictor_p1_c4_px4.v b/verilog_src/predictor_p1_c4_px4.v
index 6589108..f89b3ed 100644
--- a/verilog_src/predictor_p1_c4_px4.v
+++ b/verilog_src/predictor_p1_c4_px4.v
@@ -1,385 +1,463 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(pixel_in, \pixel_in$1 , \pixel_in$2 , \pixel_in$3 , new_row, end_in, rst, clk, predic_out, \predic_out$4 , \predic_out$5 , \predic_out$6 , pixel_out, \pixel_out$7 , \pixel_out$8 , \pixel_out$9 , valid_out, end_out, valid_in);
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [15:0] \$next\buff ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [15:0] \$next\buff$11 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [15:0] \$next\buff$13 ;
-  (* src = "predictor_p1_c4_px4.py:96" *)
-  reg [15:0] \$next\buff$15 ;
-  (* src = "predictor_p1_c4_px4.py:80" *)
-  reg \$next\end_out ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [15:0] \$next\lbuff ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [15:0] \$next\lbuff$10 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [15:0] \$next\lbuff$12 ;
-  (* src = "predictor_p1_c4_px4.py:102" *)
-  reg [15:0] \$next\lbuff$14 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [15:0] \$next\pixel_out ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [15:0] \$next\pixel_out$7 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [15:0] \$next\pixel_out$8 ;
-  (* src = "predictor_p1_c4_px4.py:69" *)
-  reg [15:0] \$next\pixel_out$9 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [15:0] \$next\predic_out ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [15:0] \$next\predic_out$4 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [15:0] \$next\predic_out$5 ;
-  (* src = "predictor_p1_c4_px4.py:72" *)
-  reg [15:0] \$next\predic_out$6 ;
-  (* src = "predictor_p1_c4_px4.py:76" *)
-  reg \$next\valid_out ;
-  (* init = 16'h8000 *)
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(\predic_out$1 , \predic_out$2 , \predic_out$3 , pixel_out, \pixel_out$4 , \pixel_out$5 , \pixel_out$6 , pixel_in, \pixel_in$7 , \pixel_in$8 , \pixel_in$9 , valid_in, valid_out, new_row, end_in, end_out, clk, rst, predic_out);
+  reg \$auto$verilog_backend.cc:2184:dump_module$19  = 0;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [15:0] buff = 16'h8000;
-  (* init = 16'h8000 *)
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [15:0] \buff$11  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [15:0] \buff$11$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [15:0] \buff$13  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [15:0] \buff$13$next ;
   (* src = "predictor_p1_c4_px4.py:96" *)
   reg [15:0] \buff$15  = 16'h8000;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [15:0] \buff$15$next ;
+  (* src = "predictor_p1_c4_px4.py:96" *)
+  reg [15:0] \buff$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "predictor_p1_c4_px4.py:79" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "predictor_p1_c4_px4.py:80" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_px4.py:80" *)
+  reg \end_out$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [15:0] lbuff = 16'h8000;
-  (* init = 16'h8000 *)
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [15:0] \lbuff$10  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [15:0] \lbuff$10$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [15:0] \lbuff$12  = 16'h8000;
-  (* init = 16'h8000 *)
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [15:0] \lbuff$12$next ;
   (* src = "predictor_p1_c4_px4.py:102" *)
   reg [15:0] \lbuff$14  = 16'h8000;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [15:0] \lbuff$14$next ;
+  (* src = "predictor_p1_c4_px4.py:102" *)
+  reg [15:0] \lbuff$next ;
   (* src = "predictor_p1_c4_px4.py:66" *)
   input new_row;
+  wire new_row;
   (* src = "predictor_p1_c4_px4.py:63" *)
   input [15:0] pixel_in;
+  wire [15:0] pixel_in;
   (* src = "predictor_p1_c4_px4.py:63" *)
-  input [15:0] \pixel_in$1 ;
+  input [15:0] \pixel_in$7 ;
+  wire [15:0] \pixel_in$7 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
-  input [15:0] \pixel_in$2 ;
+  input [15:0] \pixel_in$8 ;
+  wire [15:0] \pixel_in$8 ;
   (* src = "predictor_p1_c4_px4.py:63" *)
-  input [15:0] \pixel_in$3 ;
-  (* init = 16'h0000 *)
+  input [15:0] \pixel_in$9 ;
+  wire [15:0] \pixel_in$9 ;
   (* src = "predictor_p1_c4_px4.py:69" *)
   output [15:0] pixel_out;
   reg [15:0] pixel_out = 16'h0000;
-  (* init = 16'h0000 *)
   (* src = "predictor_p1_c4_px4.py:69" *)
-  output [15:0] \pixel_out$7 ;
-  reg [15:0] \pixel_out$7  = 16'h0000;
-  (* init = 16'h0000 *)
+  output [15:0] \pixel_out$4 ;
+  reg [15:0] \pixel_out$4  = 16'h0000;
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [15:0] \pixel_out$4$next ;
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  output [15:0] \pixel_out$5 ;
+  reg [15:0] \pixel_out$5  = 16'h0000;
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  reg [15:0] \pixel_out$5$next ;
+  (* src = "predictor_p1_c4_px4.py:69" *)
+  output [15:0] \pixel_out$6 ;
+  reg [15:0] \pixel_out$6  = 16'h0000;
   (* src = "predictor_p1_c4_px4.py:69" *)
-  output [15:0] \pixel_out$8 ;
-  reg [15:0] \pixel_out$8  = 16'h0000;
-  (* init = 16'h0000 *)
+  reg [15:0] \pixel_out$6$next ;
   (* src = "predictor_p1_c4_px4.py:69" *)
-  output [15:0] \pixel_out$9 ;
-  reg [15:0] \pixel_out$9  = 16'h0000;
-  (* init = 16'h0000 *)
+  reg [15:0] \pixel_out$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
   output [15:0] predic_out;
   reg [15:0] predic_out = 16'h0000;
-  (* init = 16'h0000 *)
   (* src = "predictor_p1_c4_px4.py:72" *)
-  output [15:0] \predic_out$4 ;
-  reg [15:0] \predic_out$4  = 16'h0000;
-  (* init = 16'h0000 *)
+  output [15:0] \predic_out$1 ;
+  reg [15:0] \predic_out$1  = 16'h0000;
   (* src = "predictor_p1_c4_px4.py:72" *)
-  output [15:0] \predic_out$5 ;
-  reg [15:0] \predic_out$5  = 16'h0000;
-  (* init = 16'h0000 *)
+  reg [15:0] \predic_out$1$next ;
   (* src = "predictor_p1_c4_px4.py:72" *)
-  output [15:0] \predic_out$6 ;
-  reg [15:0] \predic_out$6  = 16'h0000;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  output [15:0] \predic_out$2 ;
+  reg [15:0] \predic_out$2  = 16'h0000;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [15:0] \predic_out$2$next ;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  output [15:0] \predic_out$3 ;
+  reg [15:0] \predic_out$3  = 16'h0000;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [15:0] \predic_out$3$next ;
+  (* src = "predictor_p1_c4_px4.py:72" *)
+  reg [15:0] \predic_out$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "predictor_p1_c4_px4.py:75" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "predictor_p1_c4_px4.py:76" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "predictor_p1_c4_px4.py:76" *)
+  reg \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      lbuff <= \$next\lbuff ;
+    lbuff <= \lbuff$next ;
   always @(posedge clk)
-      \predic_out$6  <= \$next\predic_out$6 ;
+    \predic_out$3  <= \predic_out$3$next ;
   always @(posedge clk)
-      \predic_out$5  <= \$next\predic_out$5 ;
+    \predic_out$2  <= \predic_out$2$next ;
   always @(posedge clk)
-      \predic_out$4  <= \$next\predic_out$4 ;
+    \predic_out$1  <= \predic_out$1$next ;
   always @(posedge clk)
-      predic_out <= \$next\predic_out ;
+    predic_out <= \predic_out$next ;
   always @(posedge clk)
-      \pixel_out$9  <= \$next\pixel_out$9 ;
+    \pixel_out$6  <= \pixel_out$6$next ;
   always @(posedge clk)
-      \pixel_out$8  <= \$next\pixel_out$8 ;
+    \pixel_out$5  <= \pixel_out$5$next ;
   always @(posedge clk)
-      \pixel_out$7  <= \$next\pixel_out$7 ;
+    \pixel_out$4  <= \pixel_out$4$next ;
   always @(posedge clk)
-      pixel_out <= \$next\pixel_out ;
+    pixel_out <= \pixel_out$next ;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      \buff$15  <= \$next\buff$15 ;
+    \buff$15  <= \buff$15$next ;
   always @(posedge clk)
-      \buff$13  <= \$next\buff$13 ;
+    \buff$13  <= \buff$13$next ;
   always @(posedge clk)
-      \buff$11  <= \$next\buff$11 ;
+    \buff$11  <= \buff$11$next ;
   always @(posedge clk)
-      buff <= \$next\buff ;
+    buff <= \buff$next ;
   always @(posedge clk)
-      \lbuff$14  <= \$next\lbuff$14 ;
+    \lbuff$14  <= \lbuff$14$next ;
   always @(posedge clk)
-      \lbuff$12  <= \$next\lbuff$12 ;
+    \lbuff$12  <= \lbuff$12$next ;
   always @(posedge clk)
-      \lbuff$10  <= \$next\lbuff$10 ;
+    \lbuff$10  <= \lbuff$10$next ;
   always @* begin
-    \$next\pixel_out  = pixel_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \pixel_out$next  = pixel_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out  = pixel_in;
+          \pixel_out$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out  = 16'h0000;
+          \pixel_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$7  = \pixel_out$7 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \pixel_out$4$next  = \pixel_out$4 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$7  = \pixel_in$1 ;
+          \pixel_out$4$next  = \pixel_in$7 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$7  = 16'h0000;
+          \pixel_out$4$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\lbuff$12  = \lbuff$12 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$12$next  = \lbuff$12 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$12  = \pixel_in$2 ;
+                \lbuff$12$next  = \pixel_in$8 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$12  = 16'h8000;
+          \lbuff$12$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\lbuff$14  = \lbuff$14 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$14$next  = \lbuff$14 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$14  = \pixel_in$3 ;
+                \lbuff$14$next  = \pixel_in$9 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$14  = 16'h8000;
+          \lbuff$14$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\buff  = buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$next  = buff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff  = pixel_in;
+          \buff$next  = pixel_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff  = 16'h8000;
+          \buff$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\buff$11  = \buff$11 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$11$next  = \buff$11 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$11  = \pixel_in$1 ;
+          \buff$11$next  = \pixel_in$7 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$11  = 16'h8000;
+          \buff$11$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\buff$13  = \buff$13 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$13$next  = \buff$13 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$13  = \pixel_in$2 ;
+          \buff$13$next  = \pixel_in$8 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$13  = 16'h8000;
+          \buff$13$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\buff$15  = \buff$15 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \buff$15$next  = \buff$15 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\buff$15  = \pixel_in$3 ;
+          \buff$15$next  = \pixel_in$9 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff$15  = 16'h8000;
+          \buff$15$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
-    \$next\valid_out  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \valid_out$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
-    \$next\end_out  = end_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \end_out$next  = end_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\pixel_out$8  = \pixel_out$8 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \pixel_out$5$next  = \pixel_out$5 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$8  = \pixel_in$2 ;
+          \pixel_out$5$next  = \pixel_in$8 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$8  = 16'h0000;
+          \pixel_out$5$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\pixel_out$9  = \pixel_out$9 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \pixel_out$6$next  = \pixel_out$6 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
-          \$next\pixel_out$9  = \pixel_in$3 ;
+          \pixel_out$6$next  = \pixel_in$9 ;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\pixel_out$9  = 16'h0000;
+          \pixel_out$6$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\predic_out  = predic_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \predic_out$next  = predic_out;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out  = lbuff;
-            1'hz:
-                \$next\predic_out  = buff;
+                \predic_out$next  = lbuff;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$next  = buff;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out  = 16'h0000;
+          \predic_out$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\predic_out$4  = \predic_out$4 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \predic_out$1$next  = \predic_out$1 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$4  = \lbuff$10 ;
-            1'hz:
-                \$next\predic_out$4  = \buff$11 ;
+                \predic_out$1$next  = \lbuff$10 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$1$next  = \buff$11 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$4  = 16'h0000;
+          \predic_out$1$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\predic_out$5  = \predic_out$5 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \predic_out$2$next  = \predic_out$2 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$5  = \lbuff$12 ;
-            1'hz:
-                \$next\predic_out$5  = \buff$13 ;
+                \predic_out$2$next  = \lbuff$12 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$2$next  = \buff$13 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$5  = 16'h0000;
+          \predic_out$2$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\predic_out$6  = \predic_out$6 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \predic_out$3$next  = \predic_out$3 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:110" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:110" */
             1'h1:
-                \$next\predic_out$6  = \lbuff$14 ;
-            1'hz:
-                \$next\predic_out$6  = \buff$15 ;
+                \predic_out$3$next  = \lbuff$14 ;
+            /* src = "predictor_p1_c4_px4.py:112" */
+            default:
+                \predic_out$3$next  = \buff$15 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\predic_out$6  = 16'h0000;
+          \predic_out$3$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\lbuff  = lbuff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$next  = lbuff;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff  = pixel_in;
+                \lbuff$next  = pixel_in;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff  = 16'h8000;
+          \lbuff$next  = 16'h8000;
     endcase
   end
   always @* begin
-    \$next\lbuff$10  = \lbuff$10 ;
+    if (\$auto$verilog_backend.cc:2184:dump_module$19 ) begin end
+    \lbuff$10$next  = \lbuff$10 ;
+    (* src = "predictor_p1_c4_px4.py:104" *)
     casez (valid_in)
+      /* src = "predictor_p1_c4_px4.py:104" */
       1'h1:
+          (* src = "predictor_p1_c4_px4.py:116" *)
           casez (new_row)
+            /* src = "predictor_p1_c4_px4.py:116" */
             1'h1:
-                \$next\lbuff$10  = \pixel_in$1 ;
+                \lbuff$10$next  = \pixel_in$7 ;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\lbuff$10  = 16'h8000;
+          \lbuff$10$next  = 16'h8000;
     endcase
   end
 endmodule
diff --git a/verilog_src/register_file.v b/verilog_src/register_file.v
index 118b510..28a0ce6 100644
--- a/verilog_src/register_file.v
+++ b/verilog_src/register_file.v
@@ -1,93 +1,75 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(full_rst, height, width, allowed_cycles, full_clk);
-  (* src = "register_file.py:38" *)
-  reg [23:0] \$next\allowed_cycles ;
-  (* src = "register_file.py:52" *)
-  reg [23:0] \$next\allowed_cycles_reg ;
-  (* src = "clk_domains.py:5" *)
-  reg \$next\clk ;
-  (* src = "register_file.py:36" *)
-  reg [15:0] \$next\height ;
-  (* src = "register_file.py:51" *)
-  reg [15:0] \$next\height_reg ;
-  (* src = "register_file.py:37" *)
-  reg [15:0] \$next\width ;
-  (* src = "register_file.py:50" *)
-  reg [15:0] \$next\width_reg ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(width, allowed_cycles, full_clk, full_rst, height);
+  reg \$auto$verilog_backend.cc:2184:dump_module$4  = 0;
   (* src = "register_file.py:38" *)
   output [23:0] allowed_cycles;
-  (* init = 24'h000000 *)
+  wire [23:0] allowed_cycles;
   (* src = "register_file.py:52" *)
   reg [23:0] allowed_cycles_reg = 24'h000000;
+  (* src = "register_file.py:52" *)
+  reg [23:0] \allowed_cycles_reg$next ;
   (* src = "clk_domains.py:5" *)
   wire clk;
   (* src = "clk_domains.py:4" *)
   input full_clk;
+  wire full_clk;
   (* src = "clk_domains.py:4" *)
   input full_rst;
+  wire full_rst;
   (* src = "register_file.py:36" *)
   output [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "register_file.py:51" *)
   reg [15:0] height_reg = 16'h0000;
+  (* src = "register_file.py:51" *)
+  reg [15:0] \height_reg$next ;
   (* src = "register_file.py:37" *)
   output [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "register_file.py:50" *)
   reg [15:0] width_reg = 16'h0000;
+  (* src = "register_file.py:50" *)
+  reg [15:0] \width_reg$next ;
   always @(posedge full_clk)
-      allowed_cycles_reg <= \$next\allowed_cycles_reg ;
+    allowed_cycles_reg <= \allowed_cycles_reg$next ;
   always @(posedge full_clk)
-      height_reg <= \$next\height_reg ;
+    height_reg <= \height_reg$next ;
   always @(posedge full_clk)
-      width_reg <= \$next\width_reg ;
+    width_reg <= \width_reg$next ;
   always @* begin
-    \$next\clk  = 1'h0;
-    \$next\clk  = full_clk;
-  end
-  always @* begin
-    \$next\width_reg  = width_reg;
-    \$next\width_reg  = 16'h1000;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \width_reg$next  = 16'h1000;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\width_reg  = 16'h0000;
+          \width_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_reg  = height_reg;
-    \$next\height_reg  = 16'h0c00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \height_reg$next  = 16'h0c00;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\height_reg  = 16'h0000;
+          \height_reg$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\allowed_cycles_reg  = allowed_cycles_reg;
-    \$next\allowed_cycles_reg  = 24'h65b710;
+    if (\$auto$verilog_backend.cc:2184:dump_module$4 ) begin end
+    \allowed_cycles_reg$next  = 24'h65b710;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (full_rst)
       1'h1:
-          \$next\allowed_cycles_reg  = 24'h000000;
+          \allowed_cycles_reg$next  = 24'h000000;
     endcase
   end
-  always @* begin
-    \$next\width  = 16'h0000;
-    \$next\width  = width_reg;
-  end
-  always @* begin
-    \$next\height  = 16'h0000;
-    \$next\height  = height_reg;
-  end
-  always @* begin
-    \$next\allowed_cycles  = 24'h000000;
-    \$next\allowed_cycles  = allowed_cycles_reg;
-  end
-  assign allowed_cycles = \$next\allowed_cycles ;
-  assign height = \$next\height ;
-  assign width = \$next\width ;
-  assign clk = \$next\clk ;
+  assign allowed_cycles = allowed_cycles_reg;
+  assign height = height_reg;
+  assign width = width_reg;
+  assign clk = full_clk;
 endmodule
 
diff --git a/verilog_src/reverser.v b/verilog_src/reverser.v
index 3433053..9790057 100644
--- a/verilog_src/reverser.v
+++ b/verilog_src/reverser.v
@@ -1,50 +1,46 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(data_out, data_in);
-  (* src = "reverser.py:40" *)
-  reg [31:0] \$next\data_out ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(data_in, data_out);
   (* src = "reverser.py:39" *)
   input [31:0] data_in;
+  wire [31:0] data_in;
   (* src = "reverser.py:40" *)
   output [31:0] data_out;
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out [31] = data_in[0];
-    \$next\data_out [30] = data_in[1];
-    \$next\data_out [29] = data_in[2];
-    \$next\data_out [28] = data_in[3];
-    \$next\data_out [27] = data_in[4];
-    \$next\data_out [26] = data_in[5];
-    \$next\data_out [25] = data_in[6];
-    \$next\data_out [24] = data_in[7];
-    \$next\data_out [23] = data_in[8];
-    \$next\data_out [22] = data_in[9];
-    \$next\data_out [21] = data_in[10];
-    \$next\data_out [20] = data_in[11];
-    \$next\data_out [19] = data_in[12];
-    \$next\data_out [18] = data_in[13];
-    \$next\data_out [17] = data_in[14];
-    \$next\data_out [16] = data_in[15];
-    \$next\data_out [15] = data_in[16];
-    \$next\data_out [14] = data_in[17];
-    \$next\data_out [13] = data_in[18];
-    \$next\data_out [12] = data_in[19];
-    \$next\data_out [11] = data_in[20];
-    \$next\data_out [10] = data_in[21];
-    \$next\data_out [9] = data_in[22];
-    \$next\data_out [8] = data_in[23];
-    \$next\data_out [7] = data_in[24];
-    \$next\data_out [6] = data_in[25];
-    \$next\data_out [5] = data_in[26];
-    \$next\data_out [4] = data_in[27];
-    \$next\data_out [3] = data_in[28];
-    \$next\data_out [2] = data_in[29];
-    \$next\data_out [1] = data_in[30];
-    \$next\data_out [0] = data_in[31];
-  end
-  assign data_out = \$next\data_out ;
+  wire [31:0] data_out;
+  assign data_out[0] = data_in[31];
+  assign data_out[1] = data_in[30];
+  assign data_out[2] = data_in[29];
+  assign data_out[3] = data_in[28];
+  assign data_out[4] = data_in[27];
+  assign data_out[5] = data_in[26];
+  assign data_out[6] = data_in[25];
+  assign data_out[7] = data_in[24];
+  assign data_out[8] = data_in[23];
+  assign data_out[9] = data_in[22];
+  assign data_out[10] = data_in[21];
+  assign data_out[11] = data_in[20];
+  assign data_out[12] = data_in[19];
+  assign data_out[13] = data_in[18];
+  assign data_out[14] = data_in[17];
+  assign data_out[15] = data_in[16];
+  assign data_out[16] = data_in[15];
+  assign data_out[17] = data_in[14];
+  assign data_out[18] = data_in[13];
+  assign data_out[19] = data_in[12];
+  assign data_out[20] = data_in[11];
+  assign data_out[21] = data_in[10];
+  assign data_out[22] = data_in[9];
+  assign data_out[23] = data_in[8];
+  assign data_out[24] = data_in[7];
+  assign data_out[25] = data_in[6];
+  assign data_out[26] = data_in[5];
+  assign data_out[27] = data_in[4];
+  assign data_out[28] = data_in[3];
+  assign data_out[29] = data_in[2];
+  assign data_out[30] = data_in[1];
+  assign data_out[31] = data_in[0];
 endmodule
 
diff --git a/verilog_src/signals.v b/verilog_src/signals.v
index 9c54fd5..1988926 100644
--- a/verilog_src/signals.v
+++ b/verilog_src/signals.v
@@ -1,63 +1,81 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(width, height, rst, clk, end_of_frame, new_row, new_input);
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(width, new_input, end_of_frame, new_row, clk, rst, height);
+  reg \$auto$verilog_backend.cc:2184:dump_module$6  = 0;
+  (* src = "signals.py:65" *)
   wire [16:0] \$1 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$10 ;
+  (* src = "signals.py:73" *)
   wire \$12 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$14 ;
+  (* src = "signals.py:76" *)
   wire [16:0] \$15 ;
+  (* src = "signals.py:73" *)
   wire \$17 ;
+  (* src = "signals.py:84" *)
   wire \$19 ;
+  (* src = "signals.py:65" *)
   wire [16:0] \$2 ;
+  (* src = "signals.py:84" *)
   wire \$21 ;
+  (* src = "signals.py:84" *)
   wire \$23 ;
+  (* src = "signals.py:84" *)
   wire \$25 ;
+  (* src = "signals.py:84" *)
   wire \$27 ;
+  (* src = "signals.py:84" *)
   wire \$29 ;
+  (* src = "signals.py:73" *)
   wire \$4 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$6 ;
+  (* src = "signals.py:81" *)
   wire [16:0] \$7 ;
+  (* src = "signals.py:66" *)
   wire [16:0] \$9 ;
-  (* src = "signals.py:45" *)
-  reg \$next\end_of_frame ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "signals.py:57" *)
-  reg [15:0] \$next\height_temp ;
-  (* src = "signals.py:46" *)
-  reg \$next\new_row ;
-  (* src = "signals.py:56" *)
-  reg [15:0] \$next\width_temp ;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 1'h0 *)
+  wire clk;
   (* src = "signals.py:45" *)
   output end_of_frame;
   reg end_of_frame = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "signals.py:45" *)
+  reg \end_of_frame$next ;
+  (* src = "signals.py:60" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "signals.py:60" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "signals.py:41" *)
   input [15:0] height;
-  (* init = 16'h0000 *)
+  wire [15:0] height;
   (* src = "signals.py:57" *)
   reg [15:0] height_temp = 16'h0000;
+  (* src = "signals.py:57" *)
+  reg [15:0] \height_temp$next ;
   (* src = "signals.py:43" *)
   input new_input;
-  (* init = 1'h1 *)
+  wire new_input;
   (* src = "signals.py:46" *)
   output new_row;
   reg new_row = 1'h1;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "signals.py:46" *)
+  reg \new_row$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "signals.py:42" *)
   input [15:0] width;
-  (* init = 16'h0000 *)
+  wire [15:0] width;
   (* src = "signals.py:56" *)
   reg [15:0] width_temp = 16'h0000;
+  (* src = "signals.py:56" *)
+  reg [15:0] \width_temp$next ;
   assign \$10  = height - (* src = "signals.py:66" *) 1'h1;
   assign \$12  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$15  = height_temp - (* src = "signals.py:76" *) 1'h1;
@@ -72,124 +90,193 @@ module top(width, height, rst, clk, end_of_frame, new_row, new_input);
   assign \$4  = width_temp == (* src = "signals.py:73" *) 2'h2;
   assign \$7  = width_temp - (* src = "signals.py:81" *) 2'h2;
   always @(posedge clk)
-      end_of_frame <= \$next\end_of_frame ;
+    end_of_frame <= \end_of_frame$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      new_row <= \$next\new_row ;
+    new_row <= \new_row$next ;
   always @(posedge clk)
-      height_temp <= \$next\height_temp ;
+    height_temp <= \height_temp$next ;
   always @(posedge clk)
-      width_temp <= \$next\width_temp ;
+    width_temp <= \width_temp$next ;
   always @* begin
-    \$next\width_temp  = width_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$6 ) begin end
+    \width_temp$next  = width_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\width_temp  = \$1 [15:0];
+                \width_temp$next  = \$2 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$4 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\width_temp  = width;
-                  1'hz:
-                      \$next\width_temp  = \$6 [15:0];
+                      \width_temp$next  = width;
+                  /* src = "signals.py:79" */
+                  default:
+                      \width_temp$next  = \$7 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\width_temp  = 16'h0000;
+          \width_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\height_temp  = height_temp;
+    if (\$auto$verilog_backend.cc:2184:dump_module$6 ) begin end
+    \height_temp$next  = height_temp;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\height_temp  = \$9 [15:0];
+                \height_temp$next  = \$10 [15:0];
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$12 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\height_temp  = \$14 [15:0];
+                      \height_temp$next  = \$15 [15:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\height_temp  = 16'h0000;
+          \height_temp$next  = 16'h0000;
     endcase
   end
   always @* begin
-    \$next\new_row  = new_row;
+    if (\$auto$verilog_backend.cc:2184:dump_module$6 ) begin end
+    \new_row$next  = new_row;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\new_row  = 1'h0;
+                \new_row$next  = 1'h0;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:73" *)
                 casez (\$17 )
+                  /* src = "signals.py:73" */
                   1'h1:
-                      \$next\new_row  = 1'h1;
-                  1'hz:
-                      \$next\new_row  = 1'h0;
+                      \new_row$next  = 1'h1;
+                  /* src = "signals.py:79" */
+                  default:
+                      \new_row$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\new_row  = 1'h1;
+          \new_row$next  = 1'h1;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$6 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
       2'h0:
+          (* src = "signals.py:63" *)
           casez (new_input)
+            /* src = "signals.py:63" */
             1'h1:
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
           endcase
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$23 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\end_of_frame  = end_of_frame;
+    if (\$auto$verilog_backend.cc:2184:dump_module$6 ) begin end
+    \end_of_frame$next  = end_of_frame;
+    (* src = "signals.py:60" *)
     casez (fsm_state)
+      /* src = "signals.py:62" */
+      /* \nmigen.decoding  = "IDLE/0" */
+      2'h0:
+          /* empty */;
+      /* src = "signals.py:71" */
+      /* \nmigen.decoding  = "LOOP/1" */
       2'h1:
+          (* src = "signals.py:72" *)
           casez (new_input)
+            /* src = "signals.py:72" */
             1'h1:
+                (* src = "signals.py:84" *)
                 casez (\$29 )
+                  /* src = "signals.py:84" */
                   1'h1:
-                      \$next\end_of_frame  = 1'h1;
+                      \end_of_frame$next  = 1'h1;
                 endcase
           endcase
+      /* src = "signals.py:90" */
+      /* \nmigen.decoding  = "END/2" */
       2'h2:
-          \$next\end_of_frame  = 1'h1;
+          \end_of_frame$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_of_frame  = 1'h0;
+          \end_of_frame$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
diff --git a/verilog_src/vbits_to_cbits.v b/verilog_src/vbits_to_cbits.v
index 8ea47de..b88d9b5 100644
--- a/verilog_src/vbits_to_cbits.v
+++ b/verilog_src/vbits_to_cbits.v
@@ -1,163 +1,183 @@
-/* Generated by Yosys 0.8+     369 (git sha1 ea0e0722, clang 10.0.1 -fPIC -Os) */
+/* Generated by Yosys 0.33 (git sha1 2584903a060) */
 
-(* \nmigen.hierarchy  = "top.input_handler" *)
 (* generator = "nMigen" *)
-module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input, buffer, end_out, new_buff_consum, buff_consum, dec_buff);
+(* \nmigen.hierarchy  = "top.input_handler" *)
+module input_handler(enc_in, enc_in_ctr, in_end, valid_in, dec_buff, buffer, buff_consum, new_buff_consum, end_out, rst, clk, latch_input);
+  reg \$auto$verilog_backend.cc:2184:dump_module$21  = 0;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$1 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$27 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$28 ;
+  (* src = "vbits_to_cbits.py:173" *)
   wire \$3 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$30 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$32 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$34 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$35 ;
+  (* src = "vbits_to_cbits.py:206" *)
   wire [206:0] \$37 ;
+  (* src = "vbits_to_cbits.py:281" *)
   wire \$39 ;
+  (* src = "vbits_to_cbits.py:289" *)
   wire \$41 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [9:0] \$43 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [8:0] \$44 ;
+  (* src = "vbits_to_cbits.py:290" *)
   wire [9:0] \$46 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [8:0] \$48 ;
+  (* src = "vbits_to_cbits.py:293" *)
   wire [8:0] \$49 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$5 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [8:0] \$51 ;
+  (* src = "vbits_to_cbits.py:295" *)
   wire [8:0] \$52 ;
+  (* src = "vbits_to_cbits.py:298" *)
   wire \$54 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [9:0] \$56 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [8:0] \$57 ;
+  (* src = "vbits_to_cbits.py:299" *)
   wire [9:0] \$59 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [8:0] \$61 ;
+  (* src = "vbits_to_cbits.py:302" *)
   wire [8:0] \$62 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [8:0] \$64 ;
+  (* src = "vbits_to_cbits.py:304" *)
   wire [8:0] \$65 ;
+  (* src = "vbits_to_cbits.py:232" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:243" *)
   wire \$9 ;
   (* src = "vbits_to_cbits.py:171" *)
-  reg \$next\buff_change ;
-  (* src = "vbits_to_cbits.py:146" *)
-  reg [7:0] \$next\buff_consum ;
-  (* src = "vbits_to_cbits.py:166" *)
-  reg [7:0] \$next\buff_free ;
-  (* src = "vbits_to_cbits.py:192" *)
-  reg \$next\buff_reg ;
-  (* src = "vbits_to_cbits.py:145" *)
-  reg [143:0] \$next\buffer ;
-  (* src = "vbits_to_cbits.py:186" *)
-  reg [47:0] \$next\enc_in_buff ;
-  (* src = "vbits_to_cbits.py:187" *)
-  reg [5:0] \$next\enc_in_ctr_buff ;
-  (* src = "vbits_to_cbits.py:181" *)
-  reg [5:0] \$next\enc_in_ctr_reg ;
-  (* src = "vbits_to_cbits.py:180" *)
-  reg [47:0] \$next\enc_in_reg ;
-  (* src = "vbits_to_cbits.py:153" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:188" *)
-  reg \$next\in_end_buff ;
-  (* src = "vbits_to_cbits.py:182" *)
-  reg \$next\in_end_reg ;
-  (* src = "vbits_to_cbits.py:170" *)
-  reg \$next\inc_buff ;
-  (* src = "vbits_to_cbits.py:138" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:147" *)
-  reg [7:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:167" *)
-  reg [7:0] \$next\new_buff_free ;
-  (* src = "vbits_to_cbits.py:165" *)
-  reg \$next\start ;
-  (* src = "vbits_to_cbits.py:189" *)
-  reg \$next\valid_in_buff ;
-  (* src = "vbits_to_cbits.py:176" *)
-  reg \$next\valid_in_late ;
-  (* src = "vbits_to_cbits.py:183" *)
-  reg \$next\valid_in_reg ;
-  (* src = "vbits_to_cbits.py:171" *)
   wire buff_change;
-  (* init = 8'h00 *)
   (* src = "vbits_to_cbits.py:146" *)
   output [7:0] buff_consum;
   reg [7:0] buff_consum = 8'h00;
-  (* init = 8'h00 *)
+  (* src = "vbits_to_cbits.py:146" *)
+  reg [7:0] \buff_consum$next ;
   (* src = "vbits_to_cbits.py:166" *)
   reg [7:0] buff_free = 8'h00;
+  (* src = "vbits_to_cbits.py:166" *)
+  reg [7:0] \buff_free$next ;
   (* src = "vbits_to_cbits.py:192" *)
-  wire buff_reg;
-  (* init = 144'h000000000000000000000000000000000000 *)
+  reg buff_reg;
   (* src = "vbits_to_cbits.py:145" *)
   output [143:0] buffer;
   reg [143:0] buffer = 144'h000000000000000000000000000000000000;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "vbits_to_cbits.py:145" *)
+  reg [143:0] \buffer$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:150" *)
   input dec_buff;
+  wire dec_buff;
   (* src = "vbits_to_cbits.py:139" *)
   input [47:0] enc_in;
-  (* init = 48'h000000000000 *)
+  wire [47:0] enc_in;
   (* src = "vbits_to_cbits.py:186" *)
   reg [47:0] enc_in_buff = 48'h000000000000;
+  (* src = "vbits_to_cbits.py:186" *)
+  reg [47:0] \enc_in_buff$next ;
   (* src = "vbits_to_cbits.py:140" *)
   input [5:0] enc_in_ctr;
-  (* init = 6'h00 *)
+  wire [5:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:187" *)
   reg [5:0] enc_in_ctr_buff = 6'h00;
-  (* init = 6'h00 *)
+  (* src = "vbits_to_cbits.py:187" *)
+  reg [5:0] \enc_in_ctr_buff$next ;
   (* src = "vbits_to_cbits.py:181" *)
   reg [5:0] enc_in_ctr_reg = 6'h00;
-  (* init = 48'h000000000000 *)
+  (* src = "vbits_to_cbits.py:181" *)
+  reg [5:0] \enc_in_ctr_reg$next ;
   (* src = "vbits_to_cbits.py:180" *)
   reg [47:0] enc_in_reg = 48'h000000000000;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:180" *)
+  reg [47:0] \enc_in_reg$next ;
   (* src = "vbits_to_cbits.py:153" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:153" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:238" *)
   reg [1:0] fsm_state = 2'h0;
+  (* src = "vbits_to_cbits.py:238" *)
+  reg [1:0] \fsm_state$next ;
   (* src = "vbits_to_cbits.py:141" *)
   input in_end;
-  (* init = 1'h0 *)
+  wire in_end;
   (* src = "vbits_to_cbits.py:188" *)
   reg in_end_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:188" *)
+  reg \in_end_buff$next ;
   (* src = "vbits_to_cbits.py:182" *)
   reg in_end_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:182" *)
+  reg \in_end_reg$next ;
   (* src = "vbits_to_cbits.py:170" *)
-  wire inc_buff;
-  (* init = 1'h0 *)
+  reg inc_buff;
   (* src = "vbits_to_cbits.py:138" *)
   output latch_input;
   reg latch_input = 1'h0;
+  (* src = "vbits_to_cbits.py:138" *)
+  reg \latch_input$next ;
   (* src = "vbits_to_cbits.py:147" *)
   output [7:0] new_buff_consum;
+  reg [7:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:167" *)
-  wire [7:0] new_buff_free;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  reg [7:0] new_buff_free;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
-  (* init = 1'h0 *)
+  wire rst;
   (* src = "vbits_to_cbits.py:165" *)
   reg start = 1'h0;
+  (* src = "vbits_to_cbits.py:165" *)
+  reg \start$next ;
   (* src = "vbits_to_cbits.py:142" *)
   input valid_in;
-  (* init = 1'h0 *)
+  wire valid_in;
   (* src = "vbits_to_cbits.py:189" *)
   reg valid_in_buff = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:189" *)
+  reg \valid_in_buff$next ;
   (* src = "vbits_to_cbits.py:176" *)
   reg valid_in_late = 1'h0;
-  (* init = 1'h0 *)
+  (* src = "vbits_to_cbits.py:176" *)
+  reg \valid_in_late$next ;
   (* src = "vbits_to_cbits.py:183" *)
   reg valid_in_reg = 1'h0;
+  (* src = "vbits_to_cbits.py:183" *)
+  reg \valid_in_reg$next ;
   assign \$9  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$11  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
   assign \$13  = enc_in_ctr_buff <= (* src = "vbits_to_cbits.py:243" *) buff_free;
@@ -188,409 +208,678 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$65  = buff_consum + (* src = "vbits_to_cbits.py:304" *) enc_in_ctr_reg;
   assign \$7  = start == (* src = "vbits_to_cbits.py:232" *) 1'h0;
   always @(posedge clk)
-      latch_input <= \$next\latch_input ;
+    latch_input <= \latch_input$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
+    fsm_state <= \fsm_state$next ;
   always @(posedge clk)
-      in_end_reg <= \$next\in_end_reg ;
+    in_end_reg <= \in_end_reg$next ;
   always @(posedge clk)
-      enc_in_ctr_reg <= \$next\enc_in_ctr_reg ;
+    enc_in_ctr_reg <= \enc_in_ctr_reg$next ;
   always @(posedge clk)
-      enc_in_reg <= \$next\enc_in_reg ;
+    enc_in_reg <= \enc_in_reg$next ;
   always @(posedge clk)
-      in_end_buff <= \$next\in_end_buff ;
+    in_end_buff <= \in_end_buff$next ;
   always @(posedge clk)
-      enc_in_ctr_buff <= \$next\enc_in_ctr_buff ;
+    enc_in_ctr_buff <= \enc_in_ctr_buff$next ;
   always @(posedge clk)
-      enc_in_buff <= \$next\enc_in_buff ;
+    enc_in_buff <= \enc_in_buff$next ;
   always @(posedge clk)
-      start <= \$next\start ;
+    start <= \start$next ;
   always @(posedge clk)
-      buff_free <= \$next\buff_free ;
+    buff_free <= \buff_free$next ;
   always @(posedge clk)
-      valid_in_late <= \$next\valid_in_late ;
+    valid_in_late <= \valid_in_late$next ;
   always @(posedge clk)
-      buff_consum <= \$next\buff_consum ;
+    buff_consum <= \buff_consum$next ;
   always @(posedge clk)
-      valid_in_reg <= \$next\valid_in_reg ;
+    valid_in_reg <= \valid_in_reg$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      buffer <= \$next\buffer ;
+    buffer <= \buffer$next ;
   always @(posedge clk)
-      valid_in_buff <= \$next\valid_in_buff ;
+    valid_in_buff <= \valid_in_buff$next ;
   always @* begin
-    \$next\inc_buff  = 1'h0;
-    \$next\inc_buff  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    inc_buff = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\inc_buff  = 1'h1;
+          inc_buff = 1'h1;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$1 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\inc_buff  = 1'h1;
+                      inc_buff = 1'h1;
                 endcase
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_change  = 1'h0;
-    \$next\buff_change  = \$3 ;
-  end
-  always @* begin
-    \$next\enc_in_ctr_reg  = enc_in_ctr_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \enc_in_ctr_reg$next  = enc_in_ctr_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$17 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+                      \enc_in_ctr_reg$next  = enc_in_ctr_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_reg  = enc_in_ctr_buff;
+          \enc_in_ctr_reg$next  = enc_in_ctr_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_reg  = enc_in_ctr;
+          \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_reg  = 6'h00;
+          \enc_in_ctr_reg$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_reg  = in_end_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \in_end_reg$next  = in_end_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$19 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_reg  = in_end_buff;
+                      \in_end_reg$next  = in_end_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_reg  = in_end_buff;
+          \in_end_reg$next  = in_end_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_reg  = in_end;
+          \in_end_reg$next  = in_end;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_reg  = 1'h0;
+          \in_end_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$21 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\fsm_state  = 2'h1;
+                      \fsm_state$next  = 2'h1;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h2;
-            2'hz:
-                \$next\fsm_state  = 2'h3;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\fsm_state  = 2'h2;
-            1'hz:
-                \$next\fsm_state  = 2'h3;
+                \fsm_state$next  = 2'h2;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \fsm_state$next  = 2'h3;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\fsm_state  = 2'h2;
+          \fsm_state$next  = 2'h2;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$23 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
                       /* empty */;
-                  1'hz:
-                      \$next\fsm_state  = 2'h0;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \fsm_state$next  = 2'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\latch_input  = latch_input;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \latch_input$next  = latch_input;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
                 /* empty */;
-            2'b1z:
-                \$next\latch_input  = 1'h1;
-            2'hz:
-                \$next\latch_input  = 1'h1;
+            /* src = "vbits_to_cbits.py:247" */
+            2'b1?:
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:251" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:264" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:264" */
             1'h1:
-                \$next\latch_input  = 1'h1;
-            1'hz:
-                \$next\latch_input  = 1'h1;
+                \latch_input$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:268" */
+            default:
+                \latch_input$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\latch_input  = 1'h1;
-                  1'hz:
-                      \$next\latch_input  = 1'h0;
+                      \latch_input$next  = 1'h1;
+                  /* src = "vbits_to_cbits.py:284" */
+                  default:
+                      \latch_input$next  = 1'h0;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\latch_input  = 1'h0;
+          \latch_input$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_buff  = valid_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \valid_in_buff$next  = valid_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_buff  = valid_in_reg;
+          \valid_in_buff$next  = valid_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_buff  = 1'h0;
+          \valid_in_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buffer  = buffer;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \buffer$next  = buffer;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\buffer  = \$27 [143:0];
+          \buffer$next  = \$30 [143:0];
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$32 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\buffer  = \$34 [143:0];
+                      \buffer$next  = \$37 [143:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buffer  = 144'h000000000000000000000000000000000000;
+          \buffer$next  = 144'h000000000000000000000000000000000000;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\end_out  = in_end_reg;
+          \end_out$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
+          (* src = "vbits_to_cbits.py:280" *)
           casez (valid_in_reg)
+            /* src = "vbits_to_cbits.py:280" */
             1'h1:
+                (* src = "vbits_to_cbits.py:281" *)
                 casez (\$39 )
+                  /* src = "vbits_to_cbits.py:281" */
                   1'h1:
-                      \$next\end_out  = in_end_reg;
+                      \end_out$next  = in_end_reg;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_in_reg  = valid_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \valid_in_reg$next  = valid_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\valid_in_reg  = valid_in;
+          \valid_in_reg$next  = valid_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_reg  = 1'h0;
+          \valid_in_reg$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\new_buff_free  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    new_buff_free = 8'h00;
+    (* src = "vbits_to_cbits.py:289" *)
     casez (\$41 )
+      /* src = "vbits_to_cbits.py:289" */
       1'h1:
-          \$next\new_buff_free  = \$43 [7:0];
-      1'hz:
+          new_buff_free = \$46 [7:0];
+      /* src = "vbits_to_cbits.py:291" */
+      default:
+          (* src = "vbits_to_cbits.py:292" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_free  = \$48 [7:0];
-            2'b1z:
-                \$next\new_buff_free  = \$51 [7:0];
+            /* src = "vbits_to_cbits.py:292" */
+            2'b?1:
+                new_buff_free = \$49 [7:0];
+            /* src = "vbits_to_cbits.py:294" */
+            2'b1?:
+                new_buff_free = \$52 [7:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\new_buff_consum  = 8'h00;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    new_buff_consum = 8'h00;
+    (* src = "vbits_to_cbits.py:298" *)
     casez (\$54 )
+      /* src = "vbits_to_cbits.py:298" */
       1'h1:
-          \$next\new_buff_consum  = \$56 [7:0];
-      1'hz:
+          new_buff_consum = \$59 [7:0];
+      /* src = "vbits_to_cbits.py:300" */
+      default:
+          (* src = "vbits_to_cbits.py:301" *)
           casez ({ inc_buff, dec_buff })
-            2'bz1:
-                \$next\new_buff_consum  = \$61 [7:0];
-            2'b1z:
-                \$next\new_buff_consum  = \$64 [7:0];
+            /* src = "vbits_to_cbits.py:301" */
+            2'b?1:
+                new_buff_consum = \$62 [7:0];
+            /* src = "vbits_to_cbits.py:303" */
+            2'b1?:
+                new_buff_consum = \$65 [7:0];
           endcase
     endcase
   end
   always @* begin
-    \$next\valid_in_late  = valid_in_late;
-    \$next\valid_in_late  = valid_in;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \valid_in_late$next  = valid_in;
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_in_late  = 1'h0;
+          \valid_in_late$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\buff_consum  = buff_consum;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \buff_consum$next  = buff_consum;
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_consum  = new_buff_consum;
+          \buff_consum$next  = new_buff_consum;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_consum  = 8'h00;
+          \buff_consum$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\buff_reg  = 1'h0;
-    \$next\buff_reg  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    buff_reg = 1'h0;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
+      2'h0:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
+      2'h1:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\buff_reg  = 1'h1;
+          buff_reg = 1'h1;
     endcase
   end
   always @* begin
-    \$next\buff_free  = buff_free;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \buff_free$next  = buff_free;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$5 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\buff_free  = 8'h90;
+          \buff_free$next  = 8'h90;
     endcase
+    (* src = "vbits_to_cbits.py:308" *)
     casez (buff_change)
+      /* src = "vbits_to_cbits.py:308" */
       1'h1:
-          \$next\buff_free  = new_buff_free;
+          \buff_free$next  = new_buff_free;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\buff_free  = 8'h00;
+          \buff_free$next  = 8'h00;
     endcase
   end
   always @* begin
-    \$next\start  = start;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \start$next  = start;
+    (* src = "vbits_to_cbits.py:232" *)
     casez (\$7 )
+      /* src = "vbits_to_cbits.py:232" */
       1'h1:
-          \$next\start  = 1'h1;
+          \start$next  = 1'h1;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\start  = 1'h0;
+          \start$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_buff  = enc_in_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \enc_in_buff$next  = enc_in_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$9 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_buff  = enc_in_reg;
+                      \enc_in_buff$next  = enc_in_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_buff  = enc_in_reg;
+          \enc_in_buff$next  = enc_in_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_buff  = 48'h000000000000;
+          \enc_in_buff$next  = 48'h000000000000;
     endcase
   end
   always @* begin
-    \$next\enc_in_ctr_buff  = enc_in_ctr_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \enc_in_ctr_buff$next  = enc_in_ctr_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$11 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+                      \enc_in_ctr_buff$next  = enc_in_ctr_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_ctr_buff  = enc_in_ctr_reg;
+          \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_ctr_buff  = 6'h00;
+          \enc_in_ctr_buff$next  = 6'h00;
     endcase
   end
   always @* begin
-    \$next\in_end_buff  = in_end_buff;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \in_end_buff$next  = in_end_buff;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$13 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\in_end_buff  = in_end_reg;
+                      \in_end_buff$next  = in_end_reg;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
+      2'h3:
+          /* empty */;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\in_end_buff  = in_end_reg;
+          \in_end_buff$next  = in_end_reg;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\in_end_buff  = 1'h0;
+          \in_end_buff$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\enc_in_reg  = enc_in_reg;
+    if (\$auto$verilog_backend.cc:2184:dump_module$21 ) begin end
+    \enc_in_reg$next  = enc_in_reg;
+    (* src = "vbits_to_cbits.py:238" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:240" */
+      /* \nmigen.decoding  = "INPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:242" *)
           casez ({ valid_in_reg, valid_in_buff })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:242" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:243" *)
                 casez (\$15 )
+                  /* src = "vbits_to_cbits.py:243" */
                   1'h1:
-                      \$next\enc_in_reg  = enc_in_buff;
+                      \enc_in_reg$next  = enc_in_buff;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:255" */
+      /* \nmigen.decoding  = "CLEAN_BUFFER/1" */
       2'h1:
-          \$next\enc_in_reg  = enc_in_buff;
+          \enc_in_reg$next  = enc_in_buff;
+      /* src = "vbits_to_cbits.py:272" */
+      /* \nmigen.decoding  = "REGISTER_FOR_BURST/3" */
       2'h3:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
+      /* src = "vbits_to_cbits.py:276" */
+      /* \nmigen.decoding  = "BURST/2" */
       2'h2:
-          \$next\enc_in_reg  = enc_in;
+          \enc_in_reg$next  = enc_in;
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\enc_in_reg  = 48'h000000000000;
+          \enc_in_reg$next  = 48'h000000000000;
     endcase
   end
   assign \$27  = \$30 ;
@@ -601,114 +890,147 @@ module input_handler(valid_in, enc_in, enc_in_ctr, in_end, rst, clk, latch_input
   assign \$56  = \$59 ;
   assign \$61  = \$62 ;
   assign \$64  = \$65 ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign new_buff_free = \$next\new_buff_free ;
-  assign buff_reg = \$next\buff_reg ;
-  assign buff_change = \$next\buff_change ;
-  assign inc_buff = \$next\inc_buff ;
+  assign buff_change = \$3 ;
 endmodule
 
-(* \nmigen.hierarchy  = "top.output_handler" *)
 (* generator = "nMigen" *)
-module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out, end_out, valid_out, buff_consum);
+(* \nmigen.hierarchy  = "top.output_handler" *)
+module output_handler(buffer, buff_consum, end_in, data_out, valid_out, end_out, busy_in, rst, clk, dec_buff_out);
+  reg \$auto$verilog_backend.cc:2184:dump_module$22  = 0;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [8:0] \$1 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$11 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$13 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$15 ;
+  (* src = "vbits_to_cbits.py:87" *)
   wire \$17 ;
+  (* src = "vbits_to_cbits.py:88" *)
   wire \$19 ;
+  (* src = "vbits_to_cbits.py:76" *)
   wire [8:0] \$2 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$21 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$23 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$25 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$27 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$29 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$31 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$33 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$35 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$37 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$39 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [8:0] \$4 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$40 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$42 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$43 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$45 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$47 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$49 ;
+  (* src = "vbits_to_cbits.py:77" *)
   wire [8:0] \$5 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$51 ;
+  (* src = "vbits_to_cbits.py:93" *)
   wire [143:0] \$52 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$54 ;
+  (* src = "vbits_to_cbits.py:95" *)
   wire [174:0] \$55 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$57 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$59 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$61 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$63 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$65 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$67 ;
+  (* src = "vbits_to_cbits.py:97" *)
   wire \$69 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$7 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$71 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$73 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$75 ;
+  (* src = "vbits_to_cbits.py:114" *)
   wire \$77 ;
+  (* src = "vbits_to_cbits.py:117" *)
   wire \$79 ;
+  (* src = "vbits_to_cbits.py:108" *)
   wire \$9 ;
-  (* src = "vbits_to_cbits.py:84" *)
-  reg \$next\buff_consum_greater_eq ;
-  (* src = "vbits_to_cbits.py:83" *)
-  reg \$next\buff_consum_less_eq ;
-  (* src = "vbits_to_cbits.py:52" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:63" *)
-  reg \$next\dec_buff_out ;
-  (* src = "vbits_to_cbits.py:54" *)
-  reg \$next\end_out ;
-  (* src = "nmigen/hdl/dsl.py:244" *)
-  reg [1:0] \$next\fsm_state ;
-  (* src = "vbits_to_cbits.py:75" *)
-  reg [4:0] \$next\shift_left ;
-  (* src = "vbits_to_cbits.py:74" *)
-  reg [6:0] \$next\shift_right ;
-  (* src = "vbits_to_cbits.py:53" *)
-  reg \$next\valid_out ;
   (* src = "vbits_to_cbits.py:59" *)
   input [7:0] buff_consum;
+  wire [7:0] buff_consum;
   (* src = "vbits_to_cbits.py:84" *)
   wire buff_consum_greater_eq;
   (* src = "vbits_to_cbits.py:83" *)
   wire buff_consum_less_eq;
   (* src = "vbits_to_cbits.py:58" *)
   input [143:0] buffer;
+  wire [143:0] buffer;
   (* src = "vbits_to_cbits.py:55" *)
   input busy_in;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire busy_in;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
-  (* init = 32'd0 *)
+  wire clk;
   (* src = "vbits_to_cbits.py:52" *)
   output [31:0] data_out;
   reg [31:0] data_out = 32'd0;
+  (* src = "vbits_to_cbits.py:52" *)
+  reg [31:0] \data_out$next ;
   (* src = "vbits_to_cbits.py:63" *)
   output dec_buff_out;
+  reg dec_buff_out;
   (* src = "vbits_to_cbits.py:66" *)
   input end_in;
-  (* init = 1'h0 *)
+  wire end_in;
   (* src = "vbits_to_cbits.py:54" *)
   output end_out;
   reg end_out = 1'h0;
-  (* init = 2'h0 *)
-  (* src = "nmigen/hdl/dsl.py:244" *)
+  (* src = "vbits_to_cbits.py:54" *)
+  reg \end_out$next ;
+  (* src = "vbits_to_cbits.py:104" *)
   reg [1:0] fsm_state = 2'h0;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "vbits_to_cbits.py:104" *)
+  reg [1:0] \fsm_state$next ;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:75" *)
   wire [4:0] shift_left;
   (* src = "vbits_to_cbits.py:74" *)
   wire [6:0] shift_right;
-  (* init = 1'h0 *)
   (* src = "vbits_to_cbits.py:53" *)
   output valid_out;
   reg valid_out = 1'h0;
+  (* src = "vbits_to_cbits.py:53" *)
+  reg \valid_out$next ;
   assign \$9  = buff_consum_greater_eq | (* src = "vbits_to_cbits.py:108" *) \$7 ;
   assign \$11  = busy_in == (* src = "vbits_to_cbits.py:114" *) 1'h0;
   assign \$13  = \$11  & (* src = "vbits_to_cbits.py:114" *) buff_consum_greater_eq;
@@ -747,148 +1069,201 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$7  = buff_consum_less_eq & (* src = "vbits_to_cbits.py:108" *) end_in;
   assign \$79  = busy_in == (* src = "vbits_to_cbits.py:117" *) 1'h0;
   always @(posedge clk)
-      valid_out <= \$next\valid_out ;
+    valid_out <= \valid_out$next ;
   always @(posedge clk)
-      end_out <= \$next\end_out ;
+    end_out <= \end_out$next ;
   always @(posedge clk)
-      data_out <= \$next\data_out ;
+    data_out <= \data_out$next ;
   always @(posedge clk)
-      fsm_state <= \$next\fsm_state ;
-  always @* begin
-    \$next\shift_right  = 7'h00;
-    \$next\shift_right  = \$1 [6:0];
-  end
-  always @* begin
-    \$next\shift_left  = 5'h00;
-    \$next\shift_left  = \$4 [4:0];
-  end
+    fsm_state <= \fsm_state$next ;
   always @* begin
-    \$next\dec_buff_out  = 1'h0;
-    \$next\dec_buff_out  = 1'h0;
+    if (\$auto$verilog_backend.cc:2184:dump_module$22 ) begin end
+    dec_buff_out = 1'h0;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$9 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\dec_buff_out  = 1'h1;
+                dec_buff_out = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$15 , \$13  })
-            2'bz1:
-                \$next\dec_buff_out  = 1'h1;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                dec_buff_out = 1'h1;
           endcase
     endcase
   end
   always @* begin
-    \$next\buff_consum_greater_eq  = 1'h0;
-    \$next\buff_consum_greater_eq  = \$17 ;
-  end
-  always @* begin
-    \$next\buff_consum_less_eq  = 1'h0;
-    \$next\buff_consum_less_eq  = \$19 ;
-  end
-  always @* begin
-    \$next\fsm_state  = fsm_state;
+    if (\$auto$verilog_backend.cc:2184:dump_module$22 ) begin end
+    \fsm_state$next  = fsm_state;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$23 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
               begin
-                \$next\fsm_state  = 2'h1;
+                \fsm_state$next  = 2'h1;
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$25 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
               end
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$31 , \$29  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$33 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\fsm_state  = 2'h2;
+                      \fsm_state$next  = 2'h2;
                 endcase
-            2'b1z:
-                \$next\fsm_state  = 2'h0;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \fsm_state$next  = 2'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\fsm_state  = 2'h0;
+          \fsm_state$next  = 2'h0;
     endcase
   end
   always @* begin
-    \$next\data_out  = data_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$22 ) begin end
+    \data_out$next  = data_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$37 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$39 [31:0];
-                  1'hz:
-                      \$next\data_out  = \$42 [31:0];
+                      \data_out$next  = \$40 [31:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$43 [31:0];
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$49 , \$47  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:92" *)
                 casez (buff_consum_greater_eq)
+                  /* src = "vbits_to_cbits.py:92" */
                   1'h1:
-                      \$next\data_out  = \$51 [31:0];
-                  1'hz:
-                      \$next\data_out  = \$54 [31:0];
+                      \data_out$next  = \$52 [31:0];
+                  /* src = "vbits_to_cbits.py:94" */
+                  default:
+                      \data_out$next  = \$55 [31:0];
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\data_out  = 32'd0;
+          \data_out$next  = 32'd0;
     endcase
   end
   always @* begin
-    \$next\end_out  = end_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$22 ) begin end
+    \end_out$next  = end_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$59 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$61 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$67 , \$65  })
-            2'bz1:
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                (* src = "vbits_to_cbits.py:97" *)
                 casez (\$69 )
+                  /* src = "vbits_to_cbits.py:97" */
                   1'h1:
-                      \$next\end_out  = 1'h1;
+                      \end_out$next  = 1'h1;
                 endcase
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\end_out  = 1'h0;
+          \end_out$next  = 1'h0;
     endcase
   end
   always @* begin
-    \$next\valid_out  = valid_out;
+    if (\$auto$verilog_backend.cc:2184:dump_module$22 ) begin end
+    \valid_out$next  = valid_out;
+    (* src = "vbits_to_cbits.py:104" *)
     casez (fsm_state)
+      /* src = "vbits_to_cbits.py:106" */
+      /* \nmigen.decoding  = "OUTPUT/0" */
       2'h0:
+          (* src = "vbits_to_cbits.py:108" *)
           casez (\$73 )
+            /* src = "vbits_to_cbits.py:108" */
             1'h1:
-                \$next\valid_out  = 1'h1;
+                \valid_out$next  = 1'h1;
           endcase
+      /* src = "vbits_to_cbits.py:112" */
+      /* \nmigen.decoding  = "BURST/1" */
       2'h1:
+          (* src = "vbits_to_cbits.py:114" *)
           casez ({ \$79 , \$77  })
-            2'bz1:
-                \$next\valid_out  = 1'h1;
-            2'b1z:
-                \$next\valid_out  = 1'h0;
+            /* src = "vbits_to_cbits.py:114" */
+            2'b?1:
+                \valid_out$next  = 1'h1;
+            /* src = "vbits_to_cbits.py:117" */
+            2'b1?:
+                \valid_out$next  = 1'h0;
           endcase
     endcase
+    (* src = "nmigen/hdl/xfrm.py:528" *)
     casez (rst)
       1'h1:
-          \$next\valid_out  = 1'h0;
+          \valid_out$next  = 1'h0;
     endcase
   end
   assign \$1  = \$2 ;
@@ -897,59 +1272,37 @@ module output_handler(end_in, buffer, busy_in, rst, clk, dec_buff_out, data_out,
   assign \$42  = \$43 ;
   assign \$51  = \$52 ;
   assign \$54  = \$55 ;
-  assign buff_consum_less_eq = \$next\buff_consum_less_eq ;
-  assign buff_consum_greater_eq = \$next\buff_consum_greater_eq ;
-  assign dec_buff_out = \$next\dec_buff_out ;
-  assign shift_left = \$next\shift_left ;
-  assign shift_right = \$next\shift_right ;
+  assign buff_consum_less_eq = \$19 ;
+  assign buff_consum_greater_eq = \$17 ;
+  assign shift_left = \$5 [4:0];
+  assign shift_right = \$2 [6:0];
 endmodule
 
-(* \nmigen.hierarchy  = "top" *)
-(* top =  1  *)
 (* generator = "nMigen" *)
-module top(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, data_out, valid_out, latch_input, end_out, enc_in);
-  (* src = "vbits_to_cbits.py:332" *)
-  reg [31:0] \$next\data_out ;
-  (* src = "vbits_to_cbits.py:334" *)
-  reg \$next\end_out ;
-  (* src = "vbits_to_cbits.py:150" *)
-  reg \$next\input_handler_dec_buff ;
-  (* src = "vbits_to_cbits.py:139" *)
-  reg [47:0] \$next\input_handler_enc_in ;
-  (* src = "vbits_to_cbits.py:140" *)
-  reg [5:0] \$next\input_handler_enc_in_ctr ;
-  (* src = "vbits_to_cbits.py:141" *)
-  reg \$next\input_handler_in_end ;
-  (* src = "vbits_to_cbits.py:142" *)
-  reg \$next\input_handler_valid_in ;
-  (* src = "vbits_to_cbits.py:326" *)
-  reg \$next\latch_input ;
-  (* src = "vbits_to_cbits.py:60" *)
-  reg [7:0] \$next\new_buff_consum ;
-  (* src = "vbits_to_cbits.py:59" *)
-  reg [7:0] \$next\output_handler_buff_consum ;
-  (* src = "vbits_to_cbits.py:58" *)
-  reg [143:0] \$next\output_handler_buffer ;
-  (* src = "vbits_to_cbits.py:55" *)
-  reg \$next\output_handler_busy_in ;
-  (* src = "vbits_to_cbits.py:66" *)
-  reg \$next\output_handler_end_in ;
-  (* src = "vbits_to_cbits.py:333" *)
-  reg \$next\valid_out ;
+(* top =  1  *)
+(* \nmigen.hierarchy  = "top" *)
+module top(enc_in_ctr, in_end, valid_in, data_out, valid_out, latch_input, busy_in, end_out, clk, rst, enc_in);
   (* src = "vbits_to_cbits.py:335" *)
   input busy_in;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  wire busy_in;
+  (* src = "nmigen/hdl/ir.py:533" *)
   input clk;
+  wire clk;
   (* src = "vbits_to_cbits.py:332" *)
   output [31:0] data_out;
+  wire [31:0] data_out;
   (* src = "vbits_to_cbits.py:327" *)
   input [47:0] enc_in;
+  wire [47:0] enc_in;
   (* src = "vbits_to_cbits.py:328" *)
   input [5:0] enc_in_ctr;
+  wire [5:0] enc_in_ctr;
   (* src = "vbits_to_cbits.py:334" *)
   output end_out;
+  wire end_out;
   (* src = "vbits_to_cbits.py:329" *)
   input in_end;
+  wire in_end;
   (* src = "vbits_to_cbits.py:146" *)
   wire [7:0] input_handler_buff_consum;
   (* src = "vbits_to_cbits.py:145" *)
@@ -972,6 +1325,7 @@ module top(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, data_out, valid_out,
   wire input_handler_valid_in;
   (* src = "vbits_to_cbits.py:326" *)
   output latch_input;
+  wire latch_input;
   (* src = "vbits_to_cbits.py:60" *)
   wire [7:0] new_buff_consum;
   (* src = "vbits_to_cbits.py:59" *)
@@ -990,12 +1344,15 @@ module top(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, data_out, valid_out,
   wire output_handler_end_out;
   (* src = "vbits_to_cbits.py:53" *)
   wire output_handler_valid_out;
-  (* src = "nmigen/hdl/ir.py:329" *)
+  (* src = "nmigen/hdl/ir.py:533" *)
   input rst;
+  wire rst;
   (* src = "vbits_to_cbits.py:330" *)
   input valid_in;
+  wire valid_in;
   (* src = "vbits_to_cbits.py:333" *)
   output valid_out;
+  wire valid_out;
   input_handler input_handler (
     .buff_consum(input_handler_buff_consum),
     .buffer(input_handler_buffer),
@@ -1022,75 +1379,19 @@ module top(enc_in_ctr, in_end, valid_in, busy_in, rst, clk, data_out, valid_out,
     .rst(rst),
     .valid_out(output_handler_valid_out)
   );
-  always @* begin
-    \$next\latch_input  = 1'h0;
-    \$next\latch_input  = input_handler_latch_input;
-  end
-  always @* begin
-    \$next\input_handler_enc_in  = 48'h000000000000;
-    \$next\input_handler_enc_in  = enc_in;
-  end
-  always @* begin
-    \$next\data_out  = 32'd0;
-    \$next\data_out  = output_handler_data_out;
-  end
-  always @* begin
-    \$next\valid_out  = 1'h0;
-    \$next\valid_out  = output_handler_valid_out;
-  end
-  always @* begin
-    \$next\end_out  = 1'h0;
-    \$next\end_out  = output_handler_end_out;
-  end
-  always @* begin
-    \$next\output_handler_busy_in  = 1'h0;
-    \$next\output_handler_busy_in  = busy_in;
-  end
-  always @* begin
-    \$next\input_handler_enc_in_ctr  = 6'h00;
-    \$next\input_handler_enc_in_ctr  = enc_in_ctr;
-  end
-  always @* begin
-    \$next\input_handler_in_end  = 1'h0;
-    \$next\input_handler_in_end  = in_end;
-  end
-  always @* begin
-    \$next\input_handler_valid_in  = 1'h0;
-    \$next\input_handler_valid_in  = valid_in;
-  end
-  always @* begin
-    \$next\input_handler_dec_buff  = 1'h0;
-    \$next\input_handler_dec_buff  = output_handler_dec_buff_out;
-  end
-  always @* begin
-    \$next\output_handler_buffer  = 144'h000000000000000000000000000000000000;
-    \$next\output_handler_buffer  = input_handler_buffer;
-  end
-  always @* begin
-    \$next\output_handler_buff_consum  = 8'h00;
-    \$next\output_handler_buff_consum  = input_handler_buff_consum;
-  end
-  always @* begin
-    \$next\new_buff_consum  = 8'h00;
-    \$next\new_buff_consum  = input_handler_new_buff_consum;
-  end
-  always @* begin
-    \$next\output_handler_end_in  = 1'h0;
-    \$next\output_handler_end_in  = input_handler_end_out;
-  end
-  assign output_handler_busy_in = \$next\output_handler_busy_in ;
-  assign end_out = \$next\end_out ;
-  assign valid_out = \$next\valid_out ;
-  assign data_out = \$next\data_out ;
-  assign output_handler_end_in = \$next\output_handler_end_in ;
-  assign new_buff_consum = \$next\new_buff_consum ;
-  assign output_handler_buff_consum = \$next\output_handler_buff_consum ;
-  assign output_handler_buffer = \$next\output_handler_buffer ;
-  assign input_handler_dec_buff = \$next\input_handler_dec_buff ;
-  assign input_handler_valid_in = \$next\input_handler_valid_in ;
-  assign input_handler_in_end = \$next\input_handler_in_end ;
-  assign input_handler_enc_in_ctr = \$next\input_handler_enc_in_ctr ;
-  assign input_handler_enc_in = \$next\input_handler_enc_in ;
-  assign latch_input = \$next\latch_input ;
+  assign output_handler_busy_in = busy_in;
+  assign end_out = output_handler_end_out;
+  assign valid_out = output_handler_valid_out;
+  assign data_out = output_handler_data_out;
+  assign output_handler_end_in = input_handler_end_out;
+  assign new_buff_consum = input_handler_new_buff_consum;
+  assign output_handler_buff_consum = input_handler_buff_consum;
+  assign output_handler_buffer = input_handler_buffer;
+  assign input_handler_dec_buff = output_handler_dec_buff_out;
+  assign input_handler_valid_in = valid_in;
+  assign input_handler_in_end = in_end;
+  assign input_handler_enc_in_ctr = enc_in_ctr;
+  assign input_handler_enc_in = enc_in;
+  assign latch_input = input_handler_latch_input;
 endmodule
 
-- 
2.43.0


From 058e435d5967b256027881ab26436137a3ecaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:48 +0000
Subject: [PATCH 34/36] fix: AXI-lite ports of beta_integration, integration_2,
 integration_3 and its stream wrapper when AXI-lite is on

---
 migen_src/beta_integration.py         | 5 ++++-
 migen_src/integration_2.py            | 5 ++++-
 migen_src/integration_3.py            | 3 +++
 migen_src/integration_3_axi_stream.py | 3 +++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index eb1563a..d17cfdf 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -52,7 +52,10 @@ class BetaIntegration(Elaboratable):
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.pixel_in1, self.pixel_in2, self.nready] + \
 			[self.data_out, self.busy_in]
-			
+
+		if self.config['support_axi_lite']:
+			self.ios += self.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
+
 	def elaborate(self, platform):
 
 		m = Module()
diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index 82e3511..936cc78 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -43,7 +43,10 @@ class Integration2(Elaboratable):
 			[self.latch_output, self.nready] + \
 			[self.valid_in, self.valid_out] + \
 			[self.integration_1.fend_out, self.out_end]
-			
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_1.core_axi_lite.axi_ios
+
 	def elaborate(self, platform):
 
 		m = Module()
diff --git a/migen_src/integration_3.py b/migen_src/integration_3.py
index 1651b78..735ac46 100644
--- a/migen_src/integration_3.py
+++ b/migen_src/integration_3.py
@@ -41,6 +41,9 @@ class Integration3(Elaboratable):
 			[pixel_in for pixel_in in self.pixels_in] + \
 			[self.integration_2.integration_1.fend_out]
 
+		if config['support_axi_lite']:
+			self.ios += self.integration_2.integration_1.core_axi_lite.axi_ios
+
 	def elaborate(self, platform):
 
 		m = Module()
diff --git a/migen_src/integration_3_axi_stream.py b/migen_src/integration_3_axi_stream.py
index 066c051..a3a49fb 100644
--- a/migen_src/integration_3_axi_stream.py
+++ b/migen_src/integration_3_axi_stream.py
@@ -42,6 +42,9 @@ class Integration3AxiStream(Elaboratable):
 			[self.m_tvalid, self.m_tlast, self.m_tready, self.m_tdata] + \
 			[self.s_tvalid, self.s_tlast, self.s_tready, self.s_tdata]
 
+		if config['support_axi_lite']:
+			self.ios += self.top.integration_2.integration_1.core_axi_lite.axi_ios
+
 	def elaborate(self, platform):
 
 		m = Module()
-- 
2.43.0


From fb8d8df5c09825b8c1f1e3b1882c638b48ebfb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 35/36] fix: liblj92 accessed memory outside of damaged files
 and did not report all of them

---
 liblj92/lj92.c | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 0aa577a..2027757 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -62,6 +62,7 @@ typedef struct _ljp {
 #else
     u16* hufflut;
     int huffbits;
+    int nocode; // The data had a code that is not in the table
 #endif
     // Parse state
     int cnt;
@@ -74,7 +75,7 @@ typedef struct _ljp {
 static int find(ljp* self) {
     int ix = self->ix;
     u8* data = self->data;
-    while (data[ix] != 0xFF && ix<(self->datalen-1)) {
+    while (ix<(self->datalen-1) && data[ix] != 0xFF) {
         ix += 1;
     }
     ix += 2;
@@ -85,13 +86,24 @@ static int find(ljp* self) {
 
 #define BEH(ptr) ((((int)(*&ptr))<<8)|(*(&ptr+1)))
 
+static void free_memory(ljp* self);
+
 static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
+    if ((self->ix + 19) > self->datalen) return ret;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
     u8* bits = &huffhead[2];
     bits[0] = 0; // Because table starts from 1
     int hufflen = BEH(huffhead[0]);
     if ((self->ix + hufflen) >= self->datalen) return ret;
+    // The values have to be inside of the segment, and at most 16
+    int huffcount = 0;
+    for (int i=1;i<=16;i++) huffcount += bits[i];
+    if (hufflen < 19 + huffcount) return ret;
+    for (int i=0;i<huffcount;i++) {
+        if (self->data[self->ix+19+i] > 16) return ret;
+    }
+    free_memory(self); // A later table replaces an earlier one
 #ifdef SLOW_HUFF
     u8* huffval = calloc(hufflen - 19,sizeof(u8));
     if (huffval == NULL) return LJ92_ERROR_NO_MEMORY;
@@ -224,7 +236,7 @@ static int parseHuff(ljp* self) {
     }
     self->huffbits = maxbits;
     /* Now fill the lut */
-    u16* hufflut = malloc((1<<maxbits) * sizeof(u16));
+    u16* hufflut = calloc(1<<maxbits,sizeof(u16)); // 0: no such code
     if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
     self->hufflut = hufflut;
     int i = 0;
@@ -266,7 +278,7 @@ static int parseHuff(ljp* self) {
 }
 
 static int parseSof3(ljp* self) {
-    if (self->ix+6 >= self->datalen) return LJ92_ERROR_CORRUPT;
+    if (self->ix+7 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->y = BEH(self->data[self->ix+3]);
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
@@ -276,6 +288,7 @@ static int parseSof3(ljp* self) {
 }
 
 static int parseBlock(ljp* self) {
+    if (self->ix+1 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
@@ -359,6 +372,7 @@ inline static int nextdiff(ljp* self) {
     int index = b >> (cnt - huffbits);
     u16 ssssused = self->hufflut[index];
     int usedbits = ssssused&0xFF;
+    if (usedbits == 0) self->nocode = 1;
     int t = ssssused>>8;
     self->sssshist[t]++;
     cnt -= usedbits;
@@ -398,8 +412,11 @@ inline static int nextdiff(ljp* self) {
     return diff;
 }
 
-// More bits used than there are? (bits that are read ahead are not used yet)
+// An unknown code, or more bits used than there are? (bits that are read ahead are not used yet)
 inline static int exhausted(ljp* self) {
+#ifndef SLOW_HUFF
+    if (self->nocode) return 1;
+#endif
     return self->ix - self->cnt/8 > self->datalen;
 }
 
@@ -483,7 +500,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (exhausted(self)) break;
+        if (exhausted(self)) return ret;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -510,7 +527,7 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (exhausted(self)) break;
+        if (exhausted(self)) return ret;
     }
     if (c >= pixels) ret = LJ92_ERROR_NONE;
     return ret;
@@ -520,7 +537,12 @@ static int parseScan(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     memset(self->sssshist,0,sizeof(self->sssshist));
     self->ix = self->scanstart;
+#ifndef SLOW_HUFF
+    self->nocode = 0;
+#endif
+    if (self->ix+2 >= self->datalen) return ret;
     int compcount = self->data[self->ix+2];
+    if (self->ix+3+2*compcount >= self->datalen) return ret;
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
     if (pred==6 && self->components==1) return parsePred6(self); // Fast path
@@ -579,6 +601,7 @@ static int parseScan(ljp* self) {
                 }
                 
                 diff = nextdiff(self);
+                if (exhausted(self)) return ret;
                 left = Px + diff;
                 left = (u16) (left%65536);
                 //printf("%d %d %d\n",c,diff,left);
@@ -615,9 +638,10 @@ static int parseImage(ljp* self) {
             ret = parseSof3(self);
         else if (nextMarker == 0xfe)// Comment
             ret = parseBlock(self);
-        else if (nextMarker == 0xd9) // End of image
+        else if (nextMarker == 0xd9) { // End of image, and no scan
+            ret = LJ92_ERROR_CORRUPT;
             break;
-        else if (nextMarker == 0xda) {
+        } else if (nextMarker == 0xda) {
             self->scanstart = self->ix;
             ret = LJ92_ERROR_NONE;
             break;
@@ -672,6 +696,14 @@ int lj92_open(lj92* lj,
 
     int ret = findSoI(self);
 
+    // There has to be a code table and a picture to decode
+#ifdef SLOW_HUFF
+    if (self->huffval == NULL) ret = ret ? ret : LJ92_ERROR_CORRUPT;
+#else
+    if (self->hufflut == NULL) ret = ret ? ret : LJ92_ERROR_CORRUPT;
+#endif
+    if (self->x == 0 || self->y == 0 || self->components == 0) ret = ret ? ret : LJ92_ERROR_CORRUPT;
+
     if (ret == LJ92_ERROR_NONE) {
         u16* rowcache = (u16*)calloc(self->x * self->components * 2, sizeof(u16));
         if (rowcache == NULL) ret = LJ92_ERROR_NO_MEMORY;
-- 
2.43.0


From 6673cbb341dc0e98d2a6c6cebbecdd7825691028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:47 +0000
Subject: [PATCH 36/36] fix: beta_integration_fullaxi issues no write burst
 beyond its 131072

write_end was only raised while an address was being handed over, which it
does not stop: the writer went on past the end of its 16 MiB window.
---
 migen_src/beta_integration_fullaxi.py  |    6 +-
 verilog_src/beta_integration_fullaxi.v | 1774 ++++++++++++------------
 2 files changed, 876 insertions(+), 904 deletions(-)

diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 914f3ad..ac437ef 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -84,7 +84,7 @@ class BetaIntegrationFullAxi(Elaboratable):
 
 		m.d.comb += [
 			read_end.eq(0),
-			write_end.eq(0),
+			write_end.eq(counter_write==131072),
 		]
 
 		with m.If((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)):
@@ -94,9 +94,7 @@ class BetaIntegrationFullAxi(Elaboratable):
 				m.d.full += counter_read.eq(counter_read + 1)
 
 		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
-			with m.If(counter_write==131072):
-				m.d.comb += write_end.eq(1)
-			with m.Else():
+			with m.If(write_end==0):
 				m.d.full += counter_write.eq(counter_write + 1)
 
 		# dma_axi_lite
diff --git a/verilog_src/beta_integration_fullaxi.v b/verilog_src/beta_integration_fullaxi.v
index caf2d08..98d15df 100644
--- a/verilog_src/beta_integration_fullaxi.v
+++ b/verilog_src/beta_integration_fullaxi.v
@@ -287,7 +287,7 @@ module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, en
                 \val_out$next  = val_in[11:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_out$next  = 12'h000;
@@ -439,7 +439,7 @@ module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, en
               end
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \ssss$next  = 5'h00;
@@ -448,7 +448,7 @@ module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, en
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$200 ) begin end
     \valid_o$next  = valid;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_o$next  = 1'h0;
@@ -457,7 +457,7 @@ module \U$$0 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, valid_o, en
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$200 ) begin end
     \end_out$next  = end_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -570,7 +570,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
     \valid_late$next  = valid_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_late$next  = 1'h0;
@@ -579,7 +579,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
     \valid_out$next  = valid_late;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -588,7 +588,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
     \end_late$next  = end_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_late$next  = 1'h0;
@@ -597,7 +597,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
     \end_out$next  = end_late;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -606,7 +606,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
     \ssss_late$next  = ssss;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \ssss_late$next  = 5'h00;
@@ -615,7 +615,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$201 ) begin end
     \val_in_late$next  = val_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_in_late$next  = 12'h000;
@@ -630,7 +630,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
       1'h1:
           \enc_out$next  = \$2 [27:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_out$next  = 28'h0000000;
@@ -645,7 +645,7 @@ module \U$$0$2 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
       1'h1:
           \enc_ctr$next  = \$5 [4:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_ctr$next  = 5'h00;
@@ -732,7 +732,7 @@ module \U$$0$4 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr
       1'h1:
           \enc_out_ctr$next  = \$1 ;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_out_ctr$next  = 6'h00;
@@ -747,7 +747,7 @@ module \U$$0$4 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr
       1'h1:
           \enc_out$next  = \$6 [55:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_out$next  = 56'h00000000000000;
@@ -756,7 +756,7 @@ module \U$$0$4 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$202 ) begin end
     \valid_out$next  = valid_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -765,7 +765,7 @@ module \U$$0$4 (rst, enc_in1, enc_in_ctr1, valid_in, end_in, enc_in2, enc_in_ctr
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$202 ) begin end
     \end_out$next  = end_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -1059,7 +1059,7 @@ module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
                 \val_out$next  = val_in[11:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_out$next  = 12'h000;
@@ -1211,7 +1211,7 @@ module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
               end
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \ssss$next  = 5'h00;
@@ -1220,7 +1220,7 @@ module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$203 ) begin end
     \valid_o$next  = valid;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_o$next  = 1'h0;
@@ -1229,7 +1229,7 @@ module \U$$1 (rst, val_in, valid, end_in, val_in_mns, ssss, val_out, clk);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$203 ) begin end
     \end_out$next  = end_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -1340,7 +1340,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
     \valid_late$next  = valid_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_late$next  = 1'h0;
@@ -1349,7 +1349,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
     \valid_out$next  = valid_late;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -1358,7 +1358,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
     \end_late$next  = end_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_late$next  = 1'h0;
@@ -1367,7 +1367,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
     \end_out$next  = end_late;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -1376,7 +1376,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
     \ssss_late$next  = ssss;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \ssss_late$next  = 5'h00;
@@ -1385,7 +1385,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$204 ) begin end
     \val_in_late$next  = val_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_in_late$next  = 12'h000;
@@ -1400,7 +1400,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
       1'h1:
           \enc_out$next  = \$2 [27:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_out$next  = 28'h0000000;
@@ -1415,7 +1415,7 @@ module \U$$1$3 (rst, val_in, end_in, valid_in, ssss, rp_addr, rp_data, enc_out,
       1'h1:
           \enc_ctr$next  = \$5 [4:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_ctr$next  = 5'h00;
@@ -1499,7 +1499,7 @@ module address_gen_read(address_o, address_latch, starting_address, full_rst, fu
                 \address_o$next  = \$5 [31:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \address_o$next  = 32'd0;
@@ -1515,7 +1515,7 @@ module address_gen_read(address_o, address_latch, starting_address, full_rst, fu
       1'h0:
           \address_valid$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \address_valid$next  = 1'h0;
@@ -1536,7 +1536,7 @@ module address_gen_read(address_o, address_latch, starting_address, full_rst, fu
                 \fsm_state$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fsm_state$next  = 1'h0;
@@ -1619,7 +1619,7 @@ module address_gen_write(address_o, address_latch, starting_address, full_rst, f
                 \address_o$next  = \$5 [31:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \address_o$next  = 32'd0;
@@ -1635,7 +1635,7 @@ module address_gen_write(address_o, address_latch, starting_address, full_rst, f
       1'h0:
           \address_valid$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \address_valid$next  = 1'h0;
@@ -1656,7 +1656,7 @@ module address_gen_write(address_o, address_latch, starting_address, full_rst, f
                 \fsm_state$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fsm_state$next  = 1'h0;
@@ -1716,7 +1716,7 @@ module auto_reset(rst, reset_out, end_in, hs1_in, hs2_in, clk);
       1'h1:
           \reset_out$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \reset_out$next  = 1'h0;
@@ -1948,7 +1948,7 @@ module axihp_reader(inactive, reader_error, reader_active, enable, data_full, ad
       2'b1?:
           \active$next  = \$61 [3:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \active$next  = 4'h0;
@@ -1979,7 +1979,7 @@ module axihp_reader(inactive, reader_error, reader_active, enable, data_full, ad
                 \arvalid$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \arvalid$next  = 1'h0;
@@ -2007,7 +2007,7 @@ module axihp_reader(inactive, reader_error, reader_active, enable, data_full, ad
                 \rready$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \rready$next  = 1'h0;
@@ -2392,7 +2392,7 @@ module axihp_writer(data_enable, inactive, writer_error, writer_active, writer_u
                 \bready$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \bready$next  = 1'h0;
@@ -2410,7 +2410,7 @@ module axihp_writer(data_enable, inactive, writer_error, writer_active, writer_u
       2'b1?:
           \active$next  = \$90 [3:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \active$next  = 4'h0;
@@ -2428,7 +2428,7 @@ module axihp_writer(data_enable, inactive, writer_error, writer_active, writer_u
       2'b1?:
           \unconf$next  = \$108 [3:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \unconf$next  = 4'h0;
@@ -2459,7 +2459,7 @@ module axihp_writer(data_enable, inactive, writer_error, writer_active, writer_u
                 \awvalid$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \awvalid$next  = 1'h0;
@@ -2482,7 +2482,7 @@ module axihp_writer(data_enable, inactive, writer_error, writer_active, writer_u
                 \counter$next  = \$24 [3:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \counter$next  = 4'h0;
@@ -2510,7 +2510,7 @@ module axihp_writer(data_enable, inactive, writer_error, writer_active, writer_u
                 \wvalid$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \wvalid$next  = 1'h0;
@@ -2802,7 +2802,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
       1'h1:
           \reg_end$next  = end_in;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \reg_end$next  = 1'h0;
@@ -2920,7 +2920,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fsm_state$next  = 4'h0;
@@ -2972,7 +2972,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
                 \buffer1$next [15:0] = data_in;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \buffer1$next  = 64'h0000000000000000;
@@ -3044,7 +3044,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
                 \buffer2$next [15:0] = data_in;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \buffer2$next  = 64'h0000000000000000;
@@ -3059,7 +3059,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
       1'h1:
           \counter$next  = \$24 [2:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \counter$next  = 3'h0;
@@ -3074,7 +3074,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
       1'h1:
           \end_out$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -3095,7 +3095,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
       1'h1:
           \data_out$next  = buffer2;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \data_out$next  = 64'h0000000000000000;
@@ -3104,7 +3104,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$210 ) begin end
     \valid_out$next  = \$44 ;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -3119,7 +3119,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
       1'h1:
           \buff_chs$next  = \$52 ;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \buff_chs$next  = 1'h0;
@@ -3167,7 +3167,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
                 \buffer1_valid$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \buffer1_valid$next  = 1'h0;
@@ -3235,7 +3235,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
                 \buffer2_valid$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \buffer2_valid$next  = 1'h0;
@@ -3323,7 +3323,7 @@ module b16_b64(valid_out, data_out, o_busy, data_in, valid_in, i_busy, end_in, f
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \o_busy$next  = 1'h0;
@@ -3378,39 +3378,39 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
   (* src = "b64_b32.py:38" *)
   output [31:0] data_out;
   wire [31:0] data_out;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [31:0] fifo32_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   wire fifo32_r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire fifo32_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   reg [31:0] fifo32_w_data = 32'd0;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   reg [31:0] \fifo32_w_data$next ;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   reg fifo32_w_en = 1'h0;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   reg \fifo32_w_en$next ;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire fifo32_w_rdy;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [63:0] fifo64_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   reg fifo64_r_en = 1'h0;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   reg \fifo64_r_en$next ;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire fifo64_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   reg [63:0] fifo64_w_data = 64'h0000000000000000;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   reg [63:0] \fifo64_w_data$next ;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   reg fifo64_w_en = 1'h0;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   reg \fifo64_w_en$next ;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire fifo64_w_rdy;
   (* src = "b64_b32.py:65" *)
   reg [1:0] fsm_state = 2'h0;
@@ -3533,7 +3533,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
                 \fifo64_w_en$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fifo64_w_en$next  = 1'h0;
@@ -3566,7 +3566,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \o_busy$next  = 1'h0;
@@ -3608,7 +3608,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
                 \fsm_state$next  = 2'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fsm_state$next  = 2'h0;
@@ -3675,7 +3675,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \reg$next  = 64'h0000000000000000;
@@ -3721,7 +3721,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
                 \buff$next  = fifo64_r_data[31:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \buff$next  = 32'd0;
@@ -3745,7 +3745,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
                 \fifo32_w_en$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fifo32_w_en$next  = 1'h0;
@@ -3770,7 +3770,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
       1'h1:
           \fifo64_r_en$next  = 1'h0;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fifo64_r_en$next  = 1'h0;
@@ -3800,7 +3800,7 @@ module b64_b32(o_busy, data_in, valid_in, i_busy, valid_out, full_rst, full_clk,
                 \fsm_state$1$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fsm_state$1$next  = 1'h0;
@@ -3853,7 +3853,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
   wire \$41 ;
   (* src = "converter.py:192" *)
   wire \$43 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [29:0] \$45 ;
   (* src = "converter.py:158" *)
   wire \$47 ;
@@ -3969,7 +3969,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
   assign \$39  = valid_out & (* src = "converter.py:121" *) \$37 ;
   assign \$41  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$43  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
-  assign \$45  = + (* src = "nmigen/hdl/ast.py:230" *) enc_out_reg[55:30];
+  assign \$45  = + (* src = "ast.py:230" *) enc_out_reg[55:30];
   assign \$47  = enc_out_ctr_reg <= (* src = "converter.py:158" *) 5'h1e;
   assign \$49  = enc_out_ctr_reg <= (* src = "converter.py:192" *) 6'h38;
   assign \$52  = enc_out_ctr_reg - (* src = "converter.py:195" *) 5'h1e;
@@ -4040,7 +4040,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h3:
           \valid_in$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_in$next  = 1'h0;
@@ -4105,7 +4105,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
                 \latch_output$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \latch_output$next  = 1'h0;
@@ -4142,7 +4142,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_out_latch$next  = 30'h00000000;
@@ -4179,7 +4179,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \out_end_latch$next  = 1'h0;
@@ -4252,7 +4252,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
                 \fsm_state$next  = 2'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fsm_state$next  = 2'h0;
@@ -4276,7 +4276,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h1:
           \enc_out_reg$next  = enc_out;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_out_reg$next  = 56'h00000000000000;
@@ -4300,7 +4300,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h1:
           \enc_out_ctr_reg$next  = enc_out_ctr;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_out_ctr_reg$next  = 6'h00;
@@ -4324,7 +4324,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h1:
           \out_end_reg$next  = out_end;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \out_end_reg$next  = 1'h0;
@@ -4348,7 +4348,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h1:
           \valid_out_reg$next  = valid_out;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out_reg$next  = 1'h0;
@@ -4394,7 +4394,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h3:
           \enc_in$next  = enc_out_latch;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_in$next  = 30'h00000000;
@@ -4443,7 +4443,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h3:
           \enc_in_ctr$next  = 5'h1e;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_in_ctr$next  = 5'h00;
@@ -4484,7 +4484,7 @@ module converter(rst, latch_output, enc_out, enc_out_ctr, out_end, valid_out, en
       2'h3:
           \in_end$next  = out_end_latch;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \in_end$next  = 1'h0;
@@ -4519,19 +4519,19 @@ module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc
   (* src = "converter_fifo.py:66" *)
   output [4:0] enc_out_ctr;
   wire [4:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:292" *)
+  (* src = "fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [35:0] fifo_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   wire fifo_r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire fifo_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   wire [35:0] fifo_w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   wire fifo_w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire fifo_w_rdy;
   (* src = "converter_fifo.py:58" *)
   input in_end;
@@ -4570,7 +4570,7 @@ module converter_fifo(rst, enc_in, enc_in_ctr, in_end, valid_in, close_full, enc
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$213 ) begin end
     \close_full$next  = \$1 ;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \close_full$next  = 1'h0;
@@ -4695,7 +4695,7 @@ module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_i
       1'h1:
           \val_out$next  = diff;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_out$next  = 13'h0000;
@@ -4710,7 +4710,7 @@ module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_i
       1'h1:
           \val_out$4$next  = \$9 [12:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_out$4$next  = 13'h0000;
@@ -4735,7 +4735,7 @@ module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_i
       1'h1:
           \val_out$3$next  = \diff$11 ;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_out$3$next  = 13'h0000;
@@ -4750,7 +4750,7 @@ module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_i
       1'h1:
           \val_out$5$next  = \$15 [12:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \val_out$5$next  = 13'h0000;
@@ -4759,7 +4759,7 @@ module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_i
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
     \valid_out$next  = valid_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -4768,7 +4768,7 @@ module difference(rst, pixel_in, \pixel_in$1 , predic_in, \predic_in$2 , valid_i
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$214 ) begin end
     \end_out$next  = end_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -5124,7 +5124,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 \rresp_v$next  = 2'h3;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \rresp_v$next  = 2'h0;
@@ -5156,7 +5156,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
       3'h4:
           \awready_v$next  = 1'h0;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \awready_v$next  = 1'h0;
@@ -5200,7 +5200,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
       3'h5:
           \wready_v$next  = 1'h0;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \wready_v$next  = 1'h0;
@@ -5423,7 +5423,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \bresp_v$next  = 2'h0;
@@ -5510,7 +5510,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \read_addr$next  = 32'd0;
@@ -5609,7 +5609,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \write_addr$next  = 32'd0;
@@ -5720,7 +5720,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \start$next  = 32'd0;
@@ -5749,7 +5749,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 \rvalid_v$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \rvalid_v$next  = 1'h0;
@@ -5790,7 +5790,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 \bvalid_v$next  = 1'h1;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \bvalid_v$next  = 1'h0;
@@ -5849,7 +5849,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 \fsm_state$next  = 3'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \fsm_state$next  = 3'h0;
@@ -5877,7 +5877,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
       3'h2:
           \addr_v$next  = \$21 ;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \addr_v$next  = 32'd0;
@@ -5901,7 +5901,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
       3'h3:
           \arready_v$next  = 1'h0;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \arready_v$next  = 1'h0;
@@ -5968,7 +5968,7 @@ module dma_axi_lite(in2, in3, in4, in5, in6, in7, in8, in9, read_addr, write_add
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \rdata_v$next  = 32'd0;
@@ -6149,60 +6149,60 @@ endmodule
 (* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo.fifo" *)
 module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
   reg \$auto$verilog_backend.cc:2184:dump_module$216  = 0;
-  (* src = "nmigen/lib/fifo.py:316" *)
+  (* src = "fifo.py:316" *)
   wire \$1 ;
-  (* src = "nmigen/lib/fifo.py:316" *)
+  (* src = "fifo.py:316" *)
   wire \$3 ;
-  (* src = "nmigen/lib/fifo.py:316" *)
+  (* src = "fifo.py:316" *)
   wire \$5 ;
-  (* src = "nmigen/lib/fifo.py:323" *)
+  (* src = "fifo.py:323" *)
   wire [9:0] \$7 ;
   (* src = "clk_domains.py:5" *)
   input clk;
   wire clk;
-  (* src = "nmigen/lib/fifo.py:292" *)
+  (* src = "fifo.py:292" *)
   output [9:0] level;
   wire [9:0] level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [62:0] r_data;
   wire [62:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   reg r_rdy = 1'h0;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
   wire rst;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [62:0] unbuffered_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   wire unbuffered_r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire unbuffered_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   wire [62:0] unbuffered_w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   wire unbuffered_w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire unbuffered_w_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [62:0] w_data;
   wire [62:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire w_rdy;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
-  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  assign \$1  = ~ (* src = "fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "fifo.py:323" *) r_rdy;
   always @(posedge clk)
     r_rdy <= \r_rdy$next ;
   unbuffered unbuffered (
@@ -6219,16 +6219,16 @@ module fifo(rst, w_en, w_data, r_rdy, r_data, r_en, level, clk);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$216 ) begin end
     \r_rdy$next  = r_rdy;
-    (* src = "nmigen/lib/fifo.py:318" *)
+    (* src = "fifo.py:318" *)
     casez ({ r_en, unbuffered_r_en })
-      /* src = "nmigen/lib/fifo.py:318" */
+      /* src = "fifo.py:318" */
       2'b?1:
           \r_rdy$next  = 1'h1;
-      /* src = "nmigen/lib/fifo.py:320" */
+      /* src = "fifo.py:320" */
       2'b1?:
           \r_rdy$next  = 1'h0;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \r_rdy$next  = 1'h0;
@@ -6246,61 +6246,61 @@ endmodule
 (* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo.fifo" *)
 module \fifo$5 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
   reg \$auto$verilog_backend.cc:2184:dump_module$217  = 0;
-  (* src = "nmigen/lib/fifo.py:316" *)
+  (* src = "fifo.py:316" *)
   wire \$1 ;
-  (* src = "nmigen/lib/fifo.py:316" *)
+  (* src = "fifo.py:316" *)
   wire \$3 ;
-  (* src = "nmigen/lib/fifo.py:316" *)
+  (* src = "fifo.py:316" *)
   wire \$5 ;
-  (* src = "nmigen/lib/fifo.py:323" *)
+  (* src = "fifo.py:323" *)
   wire [9:0] \$7 ;
   (* src = "clk_domains.py:5" *)
   input clk;
   wire clk;
-  (* src = "nmigen/lib/fifo.py:292" *)
+  (* src = "fifo.py:292" *)
   output [9:0] level;
   wire [9:0] level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [35:0] r_data;
   wire [35:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   reg r_rdy = 1'h0;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   reg \r_rdy$next ;
   (* src = "clk_domains.py:5" *)
   input rst;
   wire rst;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   wire [8:0] unbuffered_level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [35:0] unbuffered_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   wire unbuffered_r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire unbuffered_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   wire [35:0] unbuffered_w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   wire unbuffered_w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire unbuffered_w_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [35:0] w_data;
   wire [35:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   output w_rdy;
   wire w_rdy;
-  assign \$1  = ~ (* src = "nmigen/lib/fifo.py:316" *) r_rdy;
-  assign \$3  = \$1  | (* src = "nmigen/lib/fifo.py:316" *) r_en;
-  assign \$5  = unbuffered_r_rdy & (* src = "nmigen/lib/fifo.py:316" *) \$3 ;
-  assign \$7  = unbuffered_level + (* src = "nmigen/lib/fifo.py:323" *) r_rdy;
+  assign \$1  = ~ (* src = "fifo.py:316" *) r_rdy;
+  assign \$3  = \$1  | (* src = "fifo.py:316" *) r_en;
+  assign \$5  = unbuffered_r_rdy & (* src = "fifo.py:316" *) \$3 ;
+  assign \$7  = unbuffered_level + (* src = "fifo.py:323" *) r_rdy;
   always @(posedge clk)
     r_rdy <= \r_rdy$next ;
   \unbuffered$6  unbuffered (
@@ -6317,16 +6317,16 @@ module \fifo$5 (rst, w_en, w_data, w_rdy, r_rdy, r_data, r_en, level, clk);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$217 ) begin end
     \r_rdy$next  = r_rdy;
-    (* src = "nmigen/lib/fifo.py:318" *)
+    (* src = "fifo.py:318" *)
     casez ({ r_en, unbuffered_r_en })
-      /* src = "nmigen/lib/fifo.py:318" */
+      /* src = "fifo.py:318" */
       2'b?1:
           \r_rdy$next  = 1'h1;
-      /* src = "nmigen/lib/fifo.py:320" */
+      /* src = "fifo.py:320" */
       2'b1?:
           \r_rdy$next  = 1'h0;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \r_rdy$next  = 1'h0;
@@ -6344,51 +6344,51 @@ endmodule
 (* \nmigen.hierarchy  = "top.reader_fifo.fifo" *)
 module \fifo$7 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_rst);
   reg \$auto$verilog_backend.cc:2184:dump_module$218  = 0;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$10 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$11 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$13 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$15 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$16 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$18 ;
-  (* src = "nmigen/lib/fifo.py:202" *)
+  (* src = "fifo.py:202" *)
   wire \$2 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$20 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$21 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$24 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [6:0] \$26 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [6:0] \$27 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$29 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$31 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$32 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$35 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [6:0] \$37 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [6:0] \$38 ;
-  (* src = "nmigen/lib/fifo.py:203" *)
+  (* src = "fifo.py:203" *)
   wire \$4 ;
-  (* src = "nmigen/lib/fifo.py:219" *)
+  (* src = "fifo.py:219" *)
   wire \$6 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$8 ;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [4:0] consume = 5'h00;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [4:0] \consume$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
@@ -6396,41 +6396,41 @@ module \fifo$7 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   (* src = "clk_domains.py:4" *)
   input full_rst;
   wire full_rst;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   output [5:0] level;
   reg [5:0] level = 6'h00;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [5:0] \level$next ;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [4:0] produce = 5'h00;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [4:0] \produce$next ;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [64:0] r_data;
   wire [64:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   wire r_rdy;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [4:0] storage_r_addr;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [64:0] storage_r_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [4:0] storage_w_addr;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [64:0] storage_w_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire storage_w_en;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [64:0] w_data;
   wire [64:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   output w_rdy;
   wire w_rdy;
   reg [64:0] storage [31:0];
@@ -6473,23 +6473,23 @@ module \fifo$7 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
       storage[storage_w_addr] <= storage_w_data;
   end
   assign storage_r_data = storage[storage_r_addr];
-  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
-  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
-  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 6'h20;
-  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
-  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
-  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
-  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
-  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$11  = produce + (* src = "fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "fifo.py:202" *) 6'h20;
+  assign \$29  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "fifo.py:207" *) w_en;
   always @(posedge full_clk)
     level <= \level$next ;
   always @(posedge full_clk)
@@ -6499,13 +6499,13 @@ module \fifo$7 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$218 ) begin end
     \produce$next  = produce;
-    (* src = "nmigen/lib/fifo.py:221" *)
+    (* src = "fifo.py:221" *)
     casez (\$8 )
-      /* src = "nmigen/lib/fifo.py:221" */
+      /* src = "fifo.py:221" */
       1'h1:
           \produce$next  = \$11 [4:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \produce$next  = 5'h00;
@@ -6514,13 +6514,13 @@ module \fifo$7 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$218 ) begin end
     \consume$next  = consume;
-    (* src = "nmigen/lib/fifo.py:230" *)
+    (* src = "fifo.py:230" *)
     casez (\$13 )
-      /* src = "nmigen/lib/fifo.py:230" */
+      /* src = "fifo.py:230" */
       1'h1:
           \consume$next  = \$16 [4:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \consume$next  = 5'h00;
@@ -6529,19 +6529,19 @@ module \fifo$7 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$218 ) begin end
     \level$next  = level;
-    (* src = "nmigen/lib/fifo.py:233" *)
+    (* src = "fifo.py:233" *)
     casez (\$24 )
-      /* src = "nmigen/lib/fifo.py:233" */
+      /* src = "fifo.py:233" */
       1'h1:
           \level$next  = \$27 [5:0];
     endcase
-    (* src = "nmigen/lib/fifo.py:235" *)
+    (* src = "fifo.py:235" *)
     casez (\$35 )
-      /* src = "nmigen/lib/fifo.py:235" */
+      /* src = "fifo.py:235" */
       1'h1:
           \level$next  = \$38 [5:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \level$next  = 6'h00;
@@ -6564,51 +6564,51 @@ endmodule
 (* \nmigen.hierarchy  = "top.writer_fifo.fifo" *)
 module \fifo$8 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_rst);
   reg \$auto$verilog_backend.cc:2184:dump_module$219  = 0;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$10 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$11 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$13 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$15 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [5:0] \$16 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$18 ;
-  (* src = "nmigen/lib/fifo.py:202" *)
+  (* src = "fifo.py:202" *)
   wire \$2 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$20 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$21 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$24 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [6:0] \$26 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [6:0] \$27 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$29 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$31 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$32 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$35 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [6:0] \$37 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [6:0] \$38 ;
-  (* src = "nmigen/lib/fifo.py:203" *)
+  (* src = "fifo.py:203" *)
   wire \$4 ;
-  (* src = "nmigen/lib/fifo.py:219" *)
+  (* src = "fifo.py:219" *)
   wire \$6 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$8 ;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [4:0] consume = 5'h00;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [4:0] \consume$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
@@ -6616,41 +6616,41 @@ module \fifo$8 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   (* src = "clk_domains.py:4" *)
   input full_rst;
   wire full_rst;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   output [5:0] level;
   reg [5:0] level = 6'h00;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [5:0] \level$next ;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [4:0] produce = 5'h00;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [4:0] \produce$next ;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [64:0] r_data;
   wire [64:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   wire r_rdy;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [4:0] storage_r_addr;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [64:0] storage_r_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [4:0] storage_w_addr;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [64:0] storage_w_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire storage_w_en;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [64:0] w_data;
   wire [64:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   output w_rdy;
   wire w_rdy;
   reg [64:0] storage [31:0];
@@ -6693,23 +6693,23 @@ module \fifo$8 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
       storage[storage_w_addr] <= storage_w_data;
   end
   assign storage_r_data = storage[storage_r_addr];
-  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
-  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
-  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 6'h20;
-  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
-  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
-  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
-  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
-  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$11  = produce + (* src = "fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "fifo.py:202" *) 6'h20;
+  assign \$29  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "fifo.py:207" *) w_en;
   always @(posedge full_clk)
     level <= \level$next ;
   always @(posedge full_clk)
@@ -6719,13 +6719,13 @@ module \fifo$8 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$219 ) begin end
     \produce$next  = produce;
-    (* src = "nmigen/lib/fifo.py:221" *)
+    (* src = "fifo.py:221" *)
     casez (\$8 )
-      /* src = "nmigen/lib/fifo.py:221" */
+      /* src = "fifo.py:221" */
       1'h1:
           \produce$next  = \$11 [4:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \produce$next  = 5'h00;
@@ -6734,13 +6734,13 @@ module \fifo$8 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$219 ) begin end
     \consume$next  = consume;
-    (* src = "nmigen/lib/fifo.py:230" *)
+    (* src = "fifo.py:230" *)
     casez (\$13 )
-      /* src = "nmigen/lib/fifo.py:230" */
+      /* src = "fifo.py:230" */
       1'h1:
           \consume$next  = \$16 [4:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \consume$next  = 5'h00;
@@ -6749,19 +6749,19 @@ module \fifo$8 (full_clk, w_en, w_data, r_en, w_rdy, r_rdy, level, r_data, full_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$219 ) begin end
     \level$next  = level;
-    (* src = "nmigen/lib/fifo.py:233" *)
+    (* src = "fifo.py:233" *)
     casez (\$24 )
-      /* src = "nmigen/lib/fifo.py:233" */
+      /* src = "fifo.py:233" */
       1'h1:
           \level$next  = \$27 [5:0];
     endcase
-    (* src = "nmigen/lib/fifo.py:235" *)
+    (* src = "fifo.py:235" *)
     casez (\$35 )
-      /* src = "nmigen/lib/fifo.py:235" */
+      /* src = "fifo.py:235" */
       1'h1:
           \level$next  = \$38 [5:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \level$next  = 6'h00;
@@ -6784,51 +6784,51 @@ endmodule
 (* \nmigen.hierarchy  = "top.b64_b32.fifo32" *)
 module fifo32(full_clk, w_rdy, w_data, w_en, r_rdy, r_data, r_en, full_rst);
   reg \$auto$verilog_backend.cc:2184:dump_module$220  = 0;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [2:0] \$10 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [2:0] \$11 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$13 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [2:0] \$15 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [2:0] \$16 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$18 ;
-  (* src = "nmigen/lib/fifo.py:202" *)
+  (* src = "fifo.py:202" *)
   wire \$2 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$20 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$21 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$24 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [3:0] \$26 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [3:0] \$27 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$29 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$31 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$32 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$35 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [3:0] \$37 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [3:0] \$38 ;
-  (* src = "nmigen/lib/fifo.py:203" *)
+  (* src = "fifo.py:203" *)
   wire \$4 ;
-  (* src = "nmigen/lib/fifo.py:219" *)
+  (* src = "fifo.py:219" *)
   wire \$6 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$8 ;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [1:0] consume = 2'h0;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [1:0] \consume$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
@@ -6836,40 +6836,40 @@ module fifo32(full_clk, w_rdy, w_data, w_en, r_rdy, r_data, r_en, full_rst);
   (* src = "clk_domains.py:4" *)
   input full_rst;
   wire full_rst;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [2:0] level = 3'h0;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [2:0] \level$next ;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [1:0] produce = 2'h0;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [1:0] \produce$next ;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [31:0] r_data;
   wire [31:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   wire r_rdy;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [1:0] storage_r_addr;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [31:0] storage_r_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [1:0] storage_w_addr;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [31:0] storage_w_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire storage_w_en;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [31:0] w_data;
   wire [31:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   output w_rdy;
   wire w_rdy;
   reg [31:0] storage [3:0];
@@ -6884,23 +6884,23 @@ module fifo32(full_clk, w_rdy, w_data, w_en, r_rdy, r_data, r_en, full_rst);
       storage[storage_w_addr] <= storage_w_data;
   end
   assign storage_r_data = storage[storage_r_addr];
-  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
-  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
-  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 3'h4;
-  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
-  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
-  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
-  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
-  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$11  = produce + (* src = "fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "fifo.py:202" *) 3'h4;
+  assign \$29  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "fifo.py:207" *) w_en;
   always @(posedge full_clk)
     level <= \level$next ;
   always @(posedge full_clk)
@@ -6910,13 +6910,13 @@ module fifo32(full_clk, w_rdy, w_data, w_en, r_rdy, r_data, r_en, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$220 ) begin end
     \produce$next  = produce;
-    (* src = "nmigen/lib/fifo.py:221" *)
+    (* src = "fifo.py:221" *)
     casez (\$8 )
-      /* src = "nmigen/lib/fifo.py:221" */
+      /* src = "fifo.py:221" */
       1'h1:
           \produce$next  = \$11 [1:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \produce$next  = 2'h0;
@@ -6925,13 +6925,13 @@ module fifo32(full_clk, w_rdy, w_data, w_en, r_rdy, r_data, r_en, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$220 ) begin end
     \consume$next  = consume;
-    (* src = "nmigen/lib/fifo.py:230" *)
+    (* src = "fifo.py:230" *)
     casez (\$13 )
-      /* src = "nmigen/lib/fifo.py:230" */
+      /* src = "fifo.py:230" */
       1'h1:
           \consume$next  = \$16 [1:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \consume$next  = 2'h0;
@@ -6940,19 +6940,19 @@ module fifo32(full_clk, w_rdy, w_data, w_en, r_rdy, r_data, r_en, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$220 ) begin end
     \level$next  = level;
-    (* src = "nmigen/lib/fifo.py:233" *)
+    (* src = "fifo.py:233" *)
     casez (\$24 )
-      /* src = "nmigen/lib/fifo.py:233" */
+      /* src = "fifo.py:233" */
       1'h1:
           \level$next  = \$27 [2:0];
     endcase
-    (* src = "nmigen/lib/fifo.py:235" *)
+    (* src = "fifo.py:235" *)
     casez (\$35 )
-      /* src = "nmigen/lib/fifo.py:235" */
+      /* src = "fifo.py:235" */
       1'h1:
           \level$next  = \$38 [2:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \level$next  = 3'h0;
@@ -6975,51 +6975,51 @@ endmodule
 (* \nmigen.hierarchy  = "top.b64_b32.fifo64" *)
 module fifo64(full_clk, w_en, w_rdy, w_data, r_rdy, r_data, r_en, full_rst);
   reg \$auto$verilog_backend.cc:2184:dump_module$221  = 0;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [1:0] \$10 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [1:0] \$11 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$13 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [1:0] \$15 ;
-  (* src = "nmigen/lib/fifo.py:157" *)
+  (* src = "fifo.py:157" *)
   wire [1:0] \$16 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$18 ;
-  (* src = "nmigen/lib/fifo.py:202" *)
+  (* src = "fifo.py:202" *)
   wire \$2 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$20 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$21 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$24 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [2:0] \$26 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [2:0] \$27 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$29 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$31 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$32 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$35 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [2:0] \$37 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [2:0] \$38 ;
-  (* src = "nmigen/lib/fifo.py:203" *)
+  (* src = "fifo.py:203" *)
   wire \$4 ;
-  (* src = "nmigen/lib/fifo.py:219" *)
+  (* src = "fifo.py:219" *)
   wire \$6 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$8 ;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg consume = 1'h0;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg \consume$next ;
   (* src = "clk_domains.py:4" *)
   input full_clk;
@@ -7027,40 +7027,40 @@ module fifo64(full_clk, w_en, w_rdy, w_data, r_rdy, r_data, r_en, full_rst);
   (* src = "clk_domains.py:4" *)
   input full_rst;
   wire full_rst;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [1:0] level = 2'h0;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [1:0] \level$next ;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg produce = 1'h0;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg \produce$next ;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [63:0] r_data;
   wire [63:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   wire r_rdy;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire storage_r_addr;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [63:0] storage_r_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire storage_w_addr;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [63:0] storage_w_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire storage_w_en;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [63:0] w_data;
   wire [63:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   output w_rdy;
   wire w_rdy;
   reg [63:0] storage [1:0];
@@ -7073,23 +7073,23 @@ module fifo64(full_clk, w_en, w_rdy, w_data, r_rdy, r_data, r_en, full_rst);
       storage[storage_w_addr] <= storage_w_data;
   end
   assign storage_r_data = storage[storage_r_addr];
-  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$13  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$16  = consume + (* src = "nmigen/lib/fifo.py:157" *) 1'h1;
-  assign \$18  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$21  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$20  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$21 ;
-  assign \$24  = \$18  & (* src = "nmigen/lib/fifo.py:233" *) \$20 ;
-  assign \$27  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 2'h2;
-  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$32  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$31  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$32 ;
-  assign \$35  = \$29  & (* src = "nmigen/lib/fifo.py:235" *) \$31 ;
-  assign \$38  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
-  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
-  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$11  = produce + (* src = "fifo.py:157" *) 1'h1;
+  assign \$13  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$16  = consume + (* src = "fifo.py:157" *) 1'h1;
+  assign \$18  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$21  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$20  = ~ (* src = "fifo.py:233" *) \$21 ;
+  assign \$24  = \$18  & (* src = "fifo.py:233" *) \$20 ;
+  assign \$27  = level + (* src = "fifo.py:234" *) 1'h1;
+  assign \$2  = level != (* src = "fifo.py:202" *) 2'h2;
+  assign \$29  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$32  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$31  = ~ (* src = "fifo.py:235" *) \$32 ;
+  assign \$35  = \$29  & (* src = "fifo.py:235" *) \$31 ;
+  assign \$38  = level - (* src = "fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "fifo.py:207" *) w_en;
   always @(posedge full_clk)
     level <= \level$next ;
   always @(posedge full_clk)
@@ -7099,13 +7099,13 @@ module fifo64(full_clk, w_en, w_rdy, w_data, r_rdy, r_data, r_en, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$221 ) begin end
     \produce$next  = produce;
-    (* src = "nmigen/lib/fifo.py:221" *)
+    (* src = "fifo.py:221" *)
     casez (\$8 )
-      /* src = "nmigen/lib/fifo.py:221" */
+      /* src = "fifo.py:221" */
       1'h1:
           \produce$next  = \$11 [0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \produce$next  = 1'h0;
@@ -7114,13 +7114,13 @@ module fifo64(full_clk, w_en, w_rdy, w_data, r_rdy, r_data, r_en, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$221 ) begin end
     \consume$next  = consume;
-    (* src = "nmigen/lib/fifo.py:230" *)
+    (* src = "fifo.py:230" *)
     casez (\$13 )
-      /* src = "nmigen/lib/fifo.py:230" */
+      /* src = "fifo.py:230" */
       1'h1:
           \consume$next  = \$16 [0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \consume$next  = 1'h0;
@@ -7129,19 +7129,19 @@ module fifo64(full_clk, w_en, w_rdy, w_data, r_rdy, r_data, r_en, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$221 ) begin end
     \level$next  = level;
-    (* src = "nmigen/lib/fifo.py:233" *)
+    (* src = "fifo.py:233" *)
     casez (\$24 )
-      /* src = "nmigen/lib/fifo.py:233" */
+      /* src = "fifo.py:233" */
       1'h1:
           \level$next  = \$27 [1:0];
     endcase
-    (* src = "nmigen/lib/fifo.py:235" *)
+    (* src = "fifo.py:235" *)
     casez (\$35 )
-      /* src = "nmigen/lib/fifo.py:235" */
+      /* src = "fifo.py:235" */
       1'h1:
           \level$next  = \$38 [1:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \level$next  = 2'h0;
@@ -7466,7 +7466,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
     \ones$next  = 8'hff;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \ones$next  = 8'hff;
@@ -7475,7 +7475,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$222 ) begin end
     \zeros$next  = 8'h00;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \zeros$next  = 8'h00;
@@ -7490,7 +7490,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
       1'h1:
           \end_out_reg$next  = end_in;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out_reg$next  = 1'h0;
@@ -7516,7 +7516,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
       3'b?1?:
           \valid_out$next  = valid_in;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -7542,7 +7542,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
       3'b?1?:
           \end_out$next  = end_in;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -7596,7 +7596,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
                 \data_out$next  = \$59 ;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out$next  = 32'd0;
@@ -7650,7 +7650,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
                 \data_out_ctr$next  = 3'h2;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out_ctr$next  = 3'h0;
@@ -7671,7 +7671,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
       3'b1??:
           \o_busy$next  = \$99 ;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \o_busy$next  = 1'h0;
@@ -7692,7 +7692,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
       3'b1??:
           \data_out_valid$next  = \$115 ;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out_valid$next  = 1'h0;
@@ -7721,7 +7721,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
                 \data_out_reg$next  = \$129 ;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out_reg$next  = 32'd0;
@@ -7750,7 +7750,7 @@ module fix_0xff(rst, o_busy, data_in, valid_in, end_in, i_busy, data_out, valid_
                 \data_out_ctr_reg$next  = 3'h2;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out_ctr_reg$next  = 3'h0;
@@ -7982,41 +7982,41 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
   wire \$45 ;
   (* src = "fix_0xff2.py:185" *)
   wire \$47 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$49 ;
   (* src = "fix_0xff2.py:208" *)
   wire \$5 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$51 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$53 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$55 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$57 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$59 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$61 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$63 ;
   (* src = "fix_0xff2.py:214" *)
   wire \$65 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$67 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$69 ;
   (* src = "fix_0xff2.py:208" *)
   wire \$7 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$71 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$73 ;
   (* src = "fix_0xff2.py:218" *)
   wire \$75 ;
   (* src = "fix_0xff2.py:219" *)
   wire \$77 ;
-  (* src = "nmigen/hdl/ast.py:230" *)
+  (* src = "ast.py:230" *)
   wire [23:0] \$79 ;
   (* src = "fix_0xff2.py:184" *)
   wire \$81 ;
@@ -8221,24 +8221,24 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
   assign \$43  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
   assign \$45  = \$41  & (* src = "fix_0xff2.py:208" *) \$43 ;
   assign \$47  = data_out_valid == (* src = "fix_0xff2.py:185" *) 1'h0;
-  assign \$49  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
-  assign \$51  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
-  assign \$53  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
-  assign \$55  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
-  assign \$57  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
+  assign \$49  = + (* src = "ast.py:230" *) data_in[7:0];
+  assign \$51  = + (* src = "ast.py:230" *) data_in[15:0];
+  assign \$53  = + (* src = "ast.py:230" *) data_in[7:0];
+  assign \$55  = + (* src = "ast.py:230" *) data_in[15:0];
+  assign \$57  = + (* src = "ast.py:230" *) data_in[7:0];
   assign \$5  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
-  assign \$59  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
-  assign \$61  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
-  assign \$63  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$59  = + (* src = "ast.py:230" *) data_in[15:0];
+  assign \$61  = + (* src = "ast.py:230" *) data_in[7:0];
+  assign \$63  = + (* src = "ast.py:230" *) data_in[15:0];
   assign \$65  = o_busy == (* src = "fix_0xff2.py:214" *) 1'h0;
-  assign \$67  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
-  assign \$69  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
-  assign \$71  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[7:0];
-  assign \$73  = + (* src = "nmigen/hdl/ast.py:230" *) data_in[15:0];
+  assign \$67  = + (* src = "ast.py:230" *) data_in[7:0];
+  assign \$69  = + (* src = "ast.py:230" *) data_in[15:0];
+  assign \$71  = + (* src = "ast.py:230" *) data_in[7:0];
+  assign \$73  = + (* src = "ast.py:230" *) data_in[15:0];
   assign \$75  = i_busy == (* src = "fix_0xff2.py:218" *) 1'h0;
   assign \$77  = data_out_valid == (* src = "fix_0xff2.py:219" *) 1'h0;
   assign \$7  = o_busy == (* src = "fix_0xff2.py:208" *) 1'h0;
-  assign \$79  = + (* src = "nmigen/hdl/ast.py:230" *) buffer_data[7:0];
+  assign \$79  = + (* src = "ast.py:230" *) buffer_data[7:0];
   assign \$81  = i_busy == (* src = "fix_0xff2.py:184" *) 1'h0;
   assign \$83  = valid_out == (* src = "fix_0xff2.py:199" *) 1'h0;
   assign \$85  = valid_in == (* src = "fix_0xff2.py:208" *) 1'h1;
@@ -8327,7 +8327,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -8474,7 +8474,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out$next  = 16'h0000;
@@ -8510,7 +8510,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out_reg$next  = 1'h0;
@@ -8677,7 +8677,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buffer_data$next  = 24'h000000;
@@ -8844,7 +8844,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buffer_count$next  = 2'h0;
@@ -9003,7 +9003,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \o_busy$next  = 1'h0;
@@ -9234,7 +9234,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 \fsm_state$next  = 2'h3;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fsm_state$next  = 2'h0;
@@ -9337,7 +9337,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -9428,7 +9428,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
           endcase
         end
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_reg$next  = 1'h0;
@@ -9472,7 +9472,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out_valid$next  = 1'h0;
@@ -9528,7 +9528,7 @@ module fix_0xff2(rst, o_busy, data_in, valid_in, end_in, i_busy, data_in_ctr, da
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out_reg$next  = 16'h0000;
@@ -9603,7 +9603,7 @@ module force_end(rst, allowed_cycles, valid_in, fend, clk);
                 \fsm_state$next  = 2'h2;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fsm_state$next  = 2'h0;
@@ -9623,7 +9623,7 @@ module force_end(rst, allowed_cycles, valid_in, fend, clk);
       2'h1:
           \counter$next  = \$4 [24:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \counter$next  = 25'h0000000;
@@ -9647,7 +9647,7 @@ module force_end(rst, allowed_cycles, valid_in, fend, clk);
       2'h2:
           \fend$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fend$next  = 1'h0;
@@ -9960,7 +9960,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \enc_in_ctr_reg$next  = enc_in_ctr;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_in_ctr_reg$next  = 5'h00;
@@ -9998,7 +9998,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \in_end_reg$next  = in_end;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \in_end_reg$next  = 1'h0;
@@ -10063,7 +10063,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fsm_state$next  = 2'h0;
@@ -10123,7 +10123,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \latch_input$next  = 1'h0;
@@ -10151,7 +10151,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \valid_in_buff$next  = valid_in_reg;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_in_buff$next  = 1'h0;
@@ -10189,7 +10189,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buffer$next  = 77'h00000000000000000000;
@@ -10227,7 +10227,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -10255,7 +10255,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \valid_in_reg$next  = valid_in;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_in_reg$next  = 1'h0;
@@ -10306,7 +10306,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$225 ) begin end
     \valid_in_late$next  = valid_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_in_late$next  = 1'h0;
@@ -10321,7 +10321,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       1'h1:
           \buff_consum$next  = new_buff_consum;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buff_consum$next  = 7'h00;
@@ -10365,7 +10365,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       1'h1:
           \buff_free$next  = new_buff_free;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buff_free$next  = 7'h00;
@@ -10380,7 +10380,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       1'h1:
           \start$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \start$next  = 1'h0;
@@ -10418,7 +10418,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \enc_in_buff$next  = enc_in_reg;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_in_buff$next  = 30'h00000000;
@@ -10456,7 +10456,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \enc_in_ctr_buff$next  = enc_in_ctr_reg;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_in_ctr_buff$next  = 5'h00;
@@ -10494,7 +10494,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \in_end_buff$next  = in_end_reg;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \in_end_buff$next  = 1'h0;
@@ -10532,7 +10532,7 @@ module input_handler(rst, latch_input, enc_in, enc_in_ctr, in_end, valid_in, dec
       2'h2:
           \enc_in_reg$next  = enc_in;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \enc_in_reg$next  = 30'h00000000;
@@ -10870,57 +10870,57 @@ endmodule
 (* \nmigen.hierarchy  = "top.top.integration_3.integration_2" *)
 module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid_in, latch_output, enc_out, enc_out_ctr, out_end, valid_out, nready, full_rst);
   reg \$auto$verilog_backend.cc:2184:dump_module$226  = 0;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$11 ;
-  (* src = "integration_2.py:61" *)
+  (* src = "integration_2.py:64" *)
   wire \$13 ;
-  (* src = "integration_2.py:61" *)
+  (* src = "integration_2.py:64" *)
   wire \$15 ;
-  (* src = "integration_2.py:61" *)
+  (* src = "integration_2.py:64" *)
   wire \$17 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$19 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$21 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$23 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$25 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$27 ;
-  (* src = "integration_2.py:69" *)
+  (* src = "integration_2.py:72" *)
   wire [3:0] \$29 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$3 ;
-  (* src = "integration_2.py:69" *)
+  (* src = "integration_2.py:72" *)
   wire [3:0] \$30 ;
-  (* src = "integration_2.py:70" *)
+  (* src = "integration_2.py:73" *)
   wire \$32 ;
-  (* src = "integration_2.py:75" *)
+  (* src = "integration_2.py:78" *)
   wire \$34 ;
-  (* src = "integration_2.py:75" *)
+  (* src = "integration_2.py:78" *)
   wire \$36 ;
-  (* src = "integration_2.py:75" *)
+  (* src = "integration_2.py:78" *)
   wire \$38 ;
-  (* src = "integration_2.py:75" *)
+  (* src = "integration_2.py:78" *)
   wire \$40 ;
-  (* src = "integration_2.py:75" *)
+  (* src = "integration_2.py:78" *)
   wire \$42 ;
-  (* src = "integration_2.py:80" *)
+  (* src = "integration_2.py:83" *)
   wire \$44 ;
-  (* src = "integration_2.py:80" *)
+  (* src = "integration_2.py:83" *)
   wire \$46 ;
-  (* src = "integration_2.py:80" *)
+  (* src = "integration_2.py:83" *)
   wire \$48 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$5 ;
   (* src = "converter_fifo.py:65" *)
   wire [55:0] \$50 ;
   (* src = "converter_fifo.py:66" *)
   wire [5:0] \$52 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$7 ;
-  (* src = "integration_2.py:62" *)
+  (* src = "integration_2.py:65" *)
   wire \$9 ;
   (* src = "clk_domains.py:5" *)
   input clk;
@@ -11022,25 +11022,25 @@ module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid
   (* src = "integration_2.py:30" *)
   output nready;
   wire nready;
-  (* src = "integration_2.py:60" *)
+  (* src = "integration_2.py:63" *)
   reg nready_end = 1'h0;
-  (* src = "integration_2.py:60" *)
+  (* src = "integration_2.py:63" *)
   reg \nready_end$next ;
-  (* src = "integration_2.py:57" *)
+  (* src = "integration_2.py:60" *)
   reg nready_end_reg = 1'h0;
-  (* src = "integration_2.py:57" *)
+  (* src = "integration_2.py:60" *)
   reg \nready_end_reg$next ;
-  (* src = "integration_2.py:58" *)
+  (* src = "integration_2.py:61" *)
   reg nready_end_wire;
-  (* src = "integration_2.py:67" *)
+  (* src = "integration_2.py:70" *)
   reg nready_reset = 1'h0;
-  (* src = "integration_2.py:67" *)
+  (* src = "integration_2.py:70" *)
   reg \nready_reset$next ;
-  (* src = "integration_2.py:68" *)
+  (* src = "integration_2.py:71" *)
   reg [2:0] nready_reset_counter = 3'h0;
-  (* src = "integration_2.py:68" *)
+  (* src = "integration_2.py:71" *)
   reg [2:0] \nready_reset_counter$next ;
-  (* src = "integration_2.py:74" *)
+  (* src = "integration_2.py:77" *)
   wire nready_signal;
   (* src = "integration_2.py:33" *)
   output out_end;
@@ -11060,31 +11060,31 @@ module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid
   (* src = "integration_2.py:32" *)
   output valid_out;
   wire valid_out;
-  assign \$9  = nready == (* src = "integration_2.py:62" *) 1'h0;
-  assign \$11  = \$7  & (* src = "integration_2.py:62" *) \$9 ;
-  assign \$13  = nready_end_wire == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$15  = nready_end_reg == (* src = "integration_2.py:61" *) 1'h1;
-  assign \$17  = \$13  | (* src = "integration_2.py:61" *) \$15 ;
-  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
-  assign \$21  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
-  assign \$23  = \$19  & (* src = "integration_2.py:62" *) \$21 ;
-  assign \$25  = nready == (* src = "integration_2.py:62" *) 1'h0;
-  assign \$27  = \$23  & (* src = "integration_2.py:62" *) \$25 ;
-  assign \$30  = nready_reset_counter + (* src = "integration_2.py:69" *) 1'h1;
-  assign \$32  = nready_reset_counter == (* src = "integration_2.py:70" *) 3'h7;
-  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:75" *) 1'h1;
-  assign \$36  = nready_end == (* src = "integration_2.py:75" *) 1'h1;
-  assign \$38  = \$34  | (* src = "integration_2.py:75" *) \$36 ;
-  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:62" *) 1'h1;
-  assign \$40  = nready_reset == (* src = "integration_2.py:75" *) 1'h0;
-  assign \$42  = \$38  | (* src = "integration_2.py:75" *) \$40 ;
-  assign \$44  = valid_in == (* src = "integration_2.py:80" *) 1'h1;
-  assign \$46  = nready_signal == (* src = "integration_2.py:80" *) 1'h0;
-  assign \$48  = \$44  & (* src = "integration_2.py:80" *) \$46 ;
+  assign \$9  = nready == (* src = "integration_2.py:65" *) 1'h0;
+  assign \$11  = \$7  & (* src = "integration_2.py:65" *) \$9 ;
+  assign \$13  = nready_end_wire == (* src = "integration_2.py:64" *) 1'h1;
+  assign \$15  = nready_end_reg == (* src = "integration_2.py:64" *) 1'h1;
+  assign \$17  = \$13  | (* src = "integration_2.py:64" *) \$15 ;
+  assign \$19  = integration_1_end_of_frame == (* src = "integration_2.py:65" *) 1'h1;
+  assign \$21  = valid_in == (* src = "integration_2.py:65" *) 1'h1;
+  assign \$23  = \$19  & (* src = "integration_2.py:65" *) \$21 ;
+  assign \$25  = nready == (* src = "integration_2.py:65" *) 1'h0;
+  assign \$27  = \$23  & (* src = "integration_2.py:65" *) \$25 ;
+  assign \$30  = nready_reset_counter + (* src = "integration_2.py:72" *) 1'h1;
+  assign \$32  = nready_reset_counter == (* src = "integration_2.py:73" *) 3'h7;
+  assign \$34  = lj92_pipeline_fifo_close_full == (* src = "integration_2.py:78" *) 1'h1;
+  assign \$36  = nready_end == (* src = "integration_2.py:78" *) 1'h1;
+  assign \$38  = \$34  | (* src = "integration_2.py:78" *) \$36 ;
+  assign \$3  = integration_1_end_of_frame == (* src = "integration_2.py:65" *) 1'h1;
+  assign \$40  = nready_reset == (* src = "integration_2.py:78" *) 1'h0;
+  assign \$42  = \$38  | (* src = "integration_2.py:78" *) \$40 ;
+  assign \$44  = valid_in == (* src = "integration_2.py:83" *) 1'h1;
+  assign \$46  = nready_signal == (* src = "integration_2.py:83" *) 1'h0;
+  assign \$48  = \$44  & (* src = "integration_2.py:83" *) \$46 ;
   assign \$50  = + (* src = "converter_fifo.py:65" *) converter_fifo_enc_out;
   assign \$52  = + (* src = "converter_fifo.py:66" *) converter_fifo_enc_out_ctr;
-  assign \$5  = valid_in == (* src = "integration_2.py:62" *) 1'h1;
-  assign \$7  = \$3  & (* src = "integration_2.py:62" *) \$5 ;
+  assign \$5  = valid_in == (* src = "integration_2.py:65" *) 1'h1;
+  assign \$7  = \$3  & (* src = "integration_2.py:65" *) \$5 ;
   always @(posedge clk)
     nready_reset <= \nready_reset$next ;
   always @(posedge clk)
@@ -11153,9 +11153,9 @@ module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
     nready_end_wire = 1'h0;
-    (* src = "integration_2.py:62" *)
+    (* src = "integration_2.py:65" *)
     casez (\$11 )
-      /* src = "integration_2.py:62" */
+      /* src = "integration_2.py:65" */
       1'h1:
           nready_end_wire = 1'h1;
     endcase
@@ -11163,7 +11163,7 @@ module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
     \nready_end$next  = \$17 ;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \nready_end$next  = 1'h0;
@@ -11172,13 +11172,13 @@ module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
     \nready_end_reg$next  = nready_end_reg;
-    (* src = "integration_2.py:62" *)
+    (* src = "integration_2.py:65" *)
     casez (\$27 )
-      /* src = "integration_2.py:62" */
+      /* src = "integration_2.py:65" */
       1'h1:
           \nready_end_reg$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \nready_end_reg$next  = 1'h0;
@@ -11187,7 +11187,7 @@ module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
     \nready_reset_counter$next  = \$30 [2:0];
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \nready_reset_counter$next  = 3'h0;
@@ -11196,13 +11196,13 @@ module integration_2(full_clk, clk, rst, fend_out, pixel_in, \pixel_in$1 , valid
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$226 ) begin end
     \nready_reset$next  = nready_reset;
-    (* src = "integration_2.py:70" *)
+    (* src = "integration_2.py:73" *)
     casez (\$32 )
-      /* src = "integration_2.py:70" */
+      /* src = "integration_2.py:73" */
       1'h1:
           \nready_reset$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \nready_reset$next  = 1'h0;
@@ -11383,17 +11383,17 @@ module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end,
   (* src = "lj92_pipeline_fifo.py:61" *)
   output [5:0] enc_out_ctr;
   wire [5:0] enc_out_ctr;
-  (* src = "nmigen/lib/fifo.py:292" *)
+  (* src = "fifo.py:292" *)
   wire [9:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [62:0] fifo_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   wire fifo_r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire fifo_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   wire [62:0] fifo_w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   wire fifo_w_en;
   (* src = "lj92_pipeline_fifo.py:56" *)
   input in_end;
@@ -11429,7 +11429,7 @@ module lj92_pipeline_fifo(rst, close_full, enc_in, enc_in_ctr, valid_in, in_end,
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$227 ) begin end
     \close_full$next  = \$1 ;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \close_full$next  = 1'h0;
@@ -11741,7 +11741,7 @@ module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, dat
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$228 ) begin end
     \end_cond$next  = \$21 ;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_cond$next  = 1'h0;
@@ -11792,7 +11792,7 @@ module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, dat
                 \counter$next  = \$38 [3:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \counter$next  = 4'h0;
@@ -11867,7 +11867,7 @@ module markers(rst, o_busy, data_in, valid_in, force_end_in, end_in, i_busy, dat
                 \fsm_state$next  = 3'h5;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fsm_state$next  = 3'h0;
@@ -12381,7 +12381,7 @@ module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out,
                 \fsm_state$next  = 2'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fsm_state$next  = 2'h0;
@@ -12427,7 +12427,7 @@ module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out,
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \data_out$next  = 16'h0000;
@@ -12467,7 +12467,7 @@ module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out,
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -12500,7 +12500,7 @@ module output_handler(rst, dec_buff_out, buffer, buff_consum, end_in, data_out,
                 \valid_out$next  = 1'h0;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -12707,7 +12707,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
       2'b1?:
           \new_row_reg$next  = 1'h0;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \new_row_reg$next  = 1'h0;
@@ -12727,7 +12727,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 \lbuff_ctr$next  = \$28 [0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \lbuff_ctr$next  = 1'h0;
@@ -12752,7 +12752,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \lbuff$next  = 12'h800;
@@ -12777,7 +12777,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \lbuff$30$next  = 12'h800;
@@ -12805,7 +12805,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \lbuff$31$next  = 12'h800;
@@ -12833,7 +12833,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \lbuff$32$next  = 12'h800;
@@ -12872,7 +12872,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \predic_out$next  = 12'h000;
@@ -12911,7 +12911,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \predic_out$3$next  = 12'h000;
@@ -12920,7 +12920,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
     \valid_out$next  = valid_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \valid_out$next  = 1'h0;
@@ -12929,7 +12929,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$230 ) begin end
     \end_out$next  = end_in;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_out$next  = 1'h0;
@@ -12944,7 +12944,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
       1'h1:
           \debug_counter$next  = \$19 [31:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \debug_counter$next  = 32'd0;
@@ -12959,7 +12959,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
       1'h1:
           \pixel_out$next  = pixel_in;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \pixel_out$next  = 12'h000;
@@ -12974,7 +12974,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
       1'h1:
           \pixel_out$2$next  = \pixel_in$1 ;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \pixel_out$2$next  = 12'h000;
@@ -12989,7 +12989,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
       1'h1:
           \buff_ctr$next  = \$22 [0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buff_ctr$next  = 1'h0;
@@ -13009,7 +13009,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 \buff$next  = pixel_in;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buff$next  = 12'h800;
@@ -13029,7 +13029,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 \buff$24$next  = \pixel_in$1 ;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buff$24$next  = 12'h800;
@@ -13052,7 +13052,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 \buff$25$next  = pixel_in;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buff$25$next  = 12'h800;
@@ -13075,7 +13075,7 @@ module predictor(rst, pixel_in, \pixel_in$1 , new_row, end_in, valid_in, pixel_o
                 \buff$26$next  = \pixel_in$1 ;
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \buff$26$next  = 12'h800;
@@ -13105,19 +13105,19 @@ module reader_fifo(data_in, end_in, valid_in, read, data_out, valid_out, full_rs
   wire end_in;
   (* src = "axihp_fifo.py:14" *)
   wire end_out;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   wire [5:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [64:0] fifo_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   wire fifo_r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire fifo_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   wire [64:0] fifo_w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   wire fifo_w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire fifo_w_rdy;
   (* src = "clk_domains.py:4" *)
   input full_clk;
@@ -13208,7 +13208,7 @@ module register_file(full_clk, height, width, allowed_cycles, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$231 ) begin end
     \width_reg$next  = 16'h1000;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \width_reg$next  = 16'h0000;
@@ -13217,7 +13217,7 @@ module register_file(full_clk, height, width, allowed_cycles, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$231 ) begin end
     \height_reg$next  = 16'h0c00;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \height_reg$next  = 16'h0000;
@@ -13226,7 +13226,7 @@ module register_file(full_clk, height, width, allowed_cycles, full_rst);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$231 ) begin end
     \allowed_cycles_reg$next  = 24'h65b710;
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \allowed_cycles_reg$next  = 24'h000000;
@@ -13367,7 +13367,7 @@ module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \width_temp$next  = 16'h0000;
@@ -13402,7 +13402,7 @@ module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \height_temp$next  = 16'h0000;
@@ -13440,7 +13440,7 @@ module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \new_row$next  = 1'h1;
@@ -13475,7 +13475,7 @@ module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
                 endcase
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \fsm_state$next  = 2'h0;
@@ -13509,7 +13509,7 @@ module signals(rst, end_of_frame, height, width, new_input, new_row, clk);
       2'h2:
           \end_of_frame$next  = 1'h1;
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \end_of_frame$next  = 1'h0;
@@ -13531,73 +13531,67 @@ module top(m_axi_areset_n_, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst,
   reg \$auto$verilog_backend.cc:2184:dump_module$233  = 0;
   (* src = "beta_integration_fullaxi.py:90" *)
   wire \$1 ;
-  (* src = "beta_integration_fullaxi.py:96" *)
-  wire \$11 ;
-  (* src = "beta_integration_fullaxi.py:96" *)
-  wire \$13 ;
-  (* src = "beta_integration_fullaxi.py:97" *)
-  wire \$15 ;
   (* src = "beta_integration_fullaxi.py:90" *)
-  wire \$17 ;
+  wire \$11 ;
   (* src = "beta_integration_fullaxi.py:90" *)
-  wire \$19 ;
+  wire \$13 ;
   (* src = "beta_integration_fullaxi.py:90" *)
-  wire \$21 ;
+  wire \$15 ;
   (* src = "beta_integration_fullaxi.py:91" *)
-  wire \$23 ;
+  wire \$17 ;
   (* src = "beta_integration_fullaxi.py:94" *)
-  wire [32:0] \$25 ;
+  wire [32:0] \$19 ;
   (* src = "beta_integration_fullaxi.py:94" *)
-  wire [32:0] \$26 ;
+  wire [32:0] \$20 ;
   (* src = "beta_integration_fullaxi.py:96" *)
-  wire \$28 ;
-  (* src = "beta_integration_fullaxi.py:90" *)
-  wire \$3 ;
+  wire \$22 ;
   (* src = "beta_integration_fullaxi.py:96" *)
-  wire \$30 ;
+  wire \$24 ;
   (* src = "beta_integration_fullaxi.py:96" *)
-  wire \$32 ;
+  wire \$26 ;
   (* src = "beta_integration_fullaxi.py:97" *)
-  wire \$34 ;
-  (* src = "beta_integration_fullaxi.py:100" *)
-  wire [32:0] \$36 ;
-  (* src = "beta_integration_fullaxi.py:100" *)
-  wire [32:0] \$37 ;
-  (* src = "beta_integration_fullaxi.py:104" *)
-  wire [31:0] \$39 ;
+  wire \$28 ;
+  (* src = "beta_integration_fullaxi.py:90" *)
+  wire \$3 ;
+  (* src = "beta_integration_fullaxi.py:98" *)
+  wire [32:0] \$30 ;
+  (* src = "beta_integration_fullaxi.py:98" *)
+  wire [32:0] \$31 ;
+  (* src = "beta_integration_fullaxi.py:102" *)
+  wire [31:0] \$33 ;
   (* src = "beta_integration.py:36" *)
-  wire [31:0] \$41 ;
+  wire [31:0] \$35 ;
+  (* src = "beta_integration_fullaxi.py:127" *)
+  wire \$37 ;
   (* src = "beta_integration_fullaxi.py:129" *)
+  wire \$39 ;
+  (* src = "beta_integration_fullaxi.py:132" *)
+  wire \$41 ;
+  (* src = "beta_integration_fullaxi.py:132" *)
   wire \$43 ;
-  (* src = "beta_integration_fullaxi.py:131" *)
+  (* src = "beta_integration_fullaxi.py:132" *)
   wire \$45 ;
-  (* src = "beta_integration_fullaxi.py:134" *)
+  (* src = "beta_integration_fullaxi.py:140" *)
   wire \$47 ;
-  (* src = "beta_integration_fullaxi.py:134" *)
+  (* src = "beta_integration_fullaxi.py:152" *)
   wire \$49 ;
   (* src = "beta_integration_fullaxi.py:90" *)
   wire \$5 ;
-  (* src = "beta_integration_fullaxi.py:134" *)
+  (* src = "beta_integration_fullaxi.py:162" *)
   wire \$51 ;
-  (* src = "beta_integration_fullaxi.py:142" *)
+  (* src = "beta_integration_fullaxi.py:176" *)
   wire \$53 ;
-  (* src = "beta_integration_fullaxi.py:154" *)
+  (* src = "beta_integration_fullaxi.py:179" *)
   wire \$55 ;
-  (* src = "beta_integration_fullaxi.py:164" *)
+  (* src = "beta_integration_fullaxi.py:183" *)
   wire \$57 ;
-  (* src = "beta_integration_fullaxi.py:178" *)
+  (* src = "beta_integration_fullaxi.py:183" *)
   wire \$59 ;
-  (* src = "beta_integration_fullaxi.py:181" *)
+  (* src = "beta_integration_fullaxi.py:183" *)
   wire \$61 ;
-  (* src = "beta_integration_fullaxi.py:185" *)
-  wire \$63 ;
-  (* src = "beta_integration_fullaxi.py:185" *)
-  wire \$65 ;
-  (* src = "beta_integration_fullaxi.py:185" *)
-  wire \$67 ;
   (* src = "beta_integration_fullaxi.py:91" *)
   wire \$7 ;
-  (* src = "beta_integration_fullaxi.py:96" *)
+  (* src = "beta_integration_fullaxi.py:87" *)
   wire \$9 ;
   (* init = 1'h0 *)
   wire \$verilog_initial_trigger ;
@@ -13943,7 +13937,7 @@ module top(m_axi_areset_n_, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst,
   (* src = "beta_integration.py:40" *)
   wire top_valid_out;
   (* src = "beta_integration_fullaxi.py:83" *)
-  reg write_end;
+  wire write_end;
   (* src = "axihp_fifo.py:10" *)
   wire [63:0] writer_fifo_data_in;
   (* src = "axihp_fifo.py:11" *)
@@ -13962,38 +13956,35 @@ module top(m_axi_areset_n_, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst,
   wire writer_fifo_valid_out;
   (* src = "axihp_fifo.py:21" *)
   wire writer_fifo_writable;
-  assign \$9  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
-  assign \$11  = axihp_writer_addr_enable == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
-  assign \$13  = \$9  & (* src = "beta_integration_fullaxi.py:96" *) \$11 ;
-  assign \$15  = counter_write == (* src = "beta_integration_fullaxi.py:97" *) 18'h20000;
-  assign \$17  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
+  assign \$9  = counter_write == (* src = "beta_integration_fullaxi.py:87" *) 18'h20000;
+  assign \$11  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
+  assign \$13  = axihp_reader_addr_enable == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
+  assign \$15  = \$11  & (* src = "beta_integration_fullaxi.py:90" *) \$13 ;
+  assign \$17  = counter_read == (* src = "beta_integration_fullaxi.py:91" *) 18'h30000;
   assign \$1  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
-  assign \$19  = axihp_reader_addr_enable == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
-  assign \$21  = \$17  & (* src = "beta_integration_fullaxi.py:90" *) \$19 ;
-  assign \$23  = counter_read == (* src = "beta_integration_fullaxi.py:91" *) 18'h30000;
-  assign \$26  = counter_read + (* src = "beta_integration_fullaxi.py:94" *) 1'h1;
-  assign \$28  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
-  assign \$30  = axihp_writer_addr_enable == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
-  assign \$32  = \$28  & (* src = "beta_integration_fullaxi.py:96" *) \$30 ;
-  assign \$34  = counter_write == (* src = "beta_integration_fullaxi.py:97" *) 18'h20000;
-  assign \$37  = counter_write + (* src = "beta_integration_fullaxi.py:100" *) 1'h1;
+  assign \$20  = counter_read + (* src = "beta_integration_fullaxi.py:94" *) 1'h1;
+  assign \$22  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
+  assign \$24  = axihp_writer_addr_enable == (* src = "beta_integration_fullaxi.py:96" *) 1'h1;
+  assign \$26  = \$22  & (* src = "beta_integration_fullaxi.py:96" *) \$24 ;
+  assign \$28  = write_end == (* src = "beta_integration_fullaxi.py:97" *) 1'h0;
+  assign \$31  = counter_write + (* src = "beta_integration_fullaxi.py:98" *) 1'h1;
+  assign \$33  = + (* src = "beta_integration_fullaxi.py:102" *) { axihp_writer_writer_unconf, axihp_reader_reader_active, axihp_writer_writer_active, axihp_reader_reader_error, axihp_writer_writer_error, axihp_writer_inactive, axihp_reader_inactive, write_end, read_end, axihp_writer_data_enable, writer_fifo_valid_out, writer_fifo_end_out, b16_b64_valid_out, b16_b64_end_out };
+  assign \$35  = + (* src = "beta_integration.py:36" *) top_data_out;
+  assign \$37  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:127" *) 32'd4294967295;
   assign \$3  = axihp_reader_addr_enable == (* src = "beta_integration_fullaxi.py:90" *) 1'h1;
-  assign \$39  = + (* src = "beta_integration_fullaxi.py:104" *) { axihp_writer_writer_unconf, axihp_reader_reader_active, axihp_writer_writer_active, axihp_reader_reader_error, axihp_writer_writer_error, axihp_writer_inactive, axihp_reader_inactive, write_end, read_end, axihp_writer_data_enable, writer_fifo_valid_out, writer_fifo_end_out, b16_b64_valid_out, b16_b64_end_out };
-  assign \$41  = + (* src = "beta_integration.py:36" *) top_data_out;
-  assign \$43  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:129" *) 32'd4294967295;
-  assign \$45  = reader_fifo_writable16 == (* src = "beta_integration_fullaxi.py:131" *) 1'h0;
-  assign \$47  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:134" *) 1'h0;
-  assign \$49  = read_end == (* src = "beta_integration_fullaxi.py:134" *) 1'h1;
-  assign \$51  = \$47  | (* src = "beta_integration_fullaxi.py:134" *) \$49 ;
-  assign \$53  = b64_b32_o_busy == (* src = "beta_integration_fullaxi.py:142" *) 1'h0;
-  assign \$55  = b64_b32_valid_out == (* src = "beta_integration_fullaxi.py:154" *) 1'h1;
-  assign \$57  = writer_fifo_writable == (* src = "beta_integration_fullaxi.py:164" *) 1'h0;
+  assign \$39  = reader_fifo_writable16 == (* src = "beta_integration_fullaxi.py:129" *) 1'h0;
+  assign \$41  = address_gen_read_address_valid == (* src = "beta_integration_fullaxi.py:132" *) 1'h0;
+  assign \$43  = read_end == (* src = "beta_integration_fullaxi.py:132" *) 1'h1;
+  assign \$45  = \$41  | (* src = "beta_integration_fullaxi.py:132" *) \$43 ;
+  assign \$47  = b64_b32_o_busy == (* src = "beta_integration_fullaxi.py:140" *) 1'h0;
+  assign \$49  = b64_b32_valid_out == (* src = "beta_integration_fullaxi.py:152" *) 1'h1;
+  assign \$51  = writer_fifo_writable == (* src = "beta_integration_fullaxi.py:162" *) 1'h0;
+  assign \$53  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:176" *) 32'd4294967295;
+  assign \$55  = writer_fifo_readable16 == (* src = "beta_integration_fullaxi.py:179" *) 1'h0;
+  assign \$57  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:183" *) 1'h0;
   assign \$5  = \$1  & (* src = "beta_integration_fullaxi.py:90" *) \$3 ;
-  assign \$59  = dma_axi_lite_start == (* src = "beta_integration_fullaxi.py:178" *) 32'd4294967295;
-  assign \$61  = writer_fifo_readable16 == (* src = "beta_integration_fullaxi.py:181" *) 1'h0;
-  assign \$63  = address_gen_write_address_valid == (* src = "beta_integration_fullaxi.py:185" *) 1'h0;
-  assign \$65  = write_end == (* src = "beta_integration_fullaxi.py:185" *) 1'h1;
-  assign \$67  = \$63  | (* src = "beta_integration_fullaxi.py:185" *) \$65 ;
+  assign \$59  = write_end == (* src = "beta_integration_fullaxi.py:183" *) 1'h1;
+  assign \$61  = \$57  | (* src = "beta_integration_fullaxi.py:183" *) \$59 ;
   assign \$7  = counter_read == (* src = "beta_integration_fullaxi.py:91" *) 18'h30000;
   always @(posedge full_clk)
     counter_write <= \counter_write$next ;
@@ -14183,39 +14174,24 @@ module top(m_axi_areset_n_, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst,
           endcase
     endcase
   end
-  always @* begin
-    if (\$auto$verilog_backend.cc:2184:dump_module$233 ) begin end
-    write_end = 1'h0;
-    (* src = "beta_integration_fullaxi.py:96" *)
-    casez (\$13 )
-      /* src = "beta_integration_fullaxi.py:96" */
-      1'h1:
-          (* src = "beta_integration_fullaxi.py:97" *)
-          casez (\$15 )
-            /* src = "beta_integration_fullaxi.py:97" */
-            1'h1:
-                write_end = 1'h1;
-          endcase
-    endcase
-  end
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$233 ) begin end
     \counter_read$next  = counter_read;
     (* src = "beta_integration_fullaxi.py:90" *)
-    casez (\$21 )
+    casez (\$15 )
       /* src = "beta_integration_fullaxi.py:90" */
       1'h1:
           (* src = "beta_integration_fullaxi.py:91" *)
-          casez (\$23 )
+          casez (\$17 )
             /* src = "beta_integration_fullaxi.py:91" */
             1'h1:
                 /* empty */;
             /* src = "beta_integration_fullaxi.py:93" */
             default:
-                \counter_read$next  = \$26 [31:0];
+                \counter_read$next  = \$20 [31:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \counter_read$next  = 32'd0;
@@ -14225,58 +14201,55 @@ module top(m_axi_areset_n_, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst,
     if (\$auto$verilog_backend.cc:2184:dump_module$233 ) begin end
     \counter_write$next  = counter_write;
     (* src = "beta_integration_fullaxi.py:96" *)
-    casez (\$32 )
+    casez (\$26 )
       /* src = "beta_integration_fullaxi.py:96" */
       1'h1:
           (* src = "beta_integration_fullaxi.py:97" *)
-          casez (\$34 )
+          casez (\$28 )
             /* src = "beta_integration_fullaxi.py:97" */
             1'h1:
-                /* empty */;
-            /* src = "beta_integration_fullaxi.py:99" */
-            default:
-                \counter_write$next  = \$37 [31:0];
+                \counter_write$next  = \$31 [31:0];
           endcase
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (full_rst)
       1'h1:
           \counter_write$next  = 32'd0;
     endcase
   end
-  assign \$25  = \$26 ;
-  assign \$36  = \$37 ;
-  assign axihp_writer_addr_empty = \$67 ;
+  assign \$19  = \$20 ;
+  assign \$30  = \$31 ;
+  assign axihp_writer_addr_empty = \$61 ;
   assign axihp_writer_addr_in = address_gen_write_address_o;
   assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
   assign axihp_writer_write_strobe = 8'hff;
-  assign axihp_writer_data_empty = \$61 ;
+  assign axihp_writer_data_empty = \$55 ;
   assign axihp_writer_data_in = writer_fifo_data_out;
-  assign axihp_writer_enable = \$59 ;
+  assign axihp_writer_enable = \$53 ;
   assign writer_fifo_read = axihp_writer_data_enable;
   assign writer_fifo_valid_in = b16_b64_valid_out;
   assign writer_fifo_end_in = b16_b64_end_out;
   assign writer_fifo_data_in = b16_b64_data_out;
   assign b16_b64_end_in = top_end_out;
-  assign b16_b64_i_busy = \$57 ;
+  assign b16_b64_i_busy = \$51 ;
   assign b16_b64_valid_in = top_valid_out;
   assign b16_b64_data_in = top_data_out;
   assign top_pixel_in2 = b64_b32_data_out[23:12];
   assign top_pixel_in1 = b64_b32_data_out[11:0];
   assign top_busy_in = b16_b64_o_busy;
-  assign top_valid_in = \$55 ;
+  assign top_valid_in = \$49 ;
   assign b64_b32_i_busy = top_nready;
   assign b64_b32_valid_in = reader_fifo_valid_out;
   assign b64_b32_data_in = reader_fifo_data_out;
-  assign reader_fifo_read = \$53 ;
+  assign reader_fifo_read = \$47 ;
   assign reader_fifo_valid_in = axihp_reader_data_enable;
   assign \$verilog_initial_trigger  = \$verilog_initial_trigger ;
   assign reader_fifo_end_in = 1'h0;
   assign reader_fifo_data_in = axihp_reader_data_out;
-  assign axihp_reader_addr_empty = \$51 ;
+  assign axihp_reader_addr_empty = \$45 ;
   assign axihp_reader_addr_in = address_gen_read_address_o;
-  assign axihp_reader_data_full = \$45 ;
-  assign axihp_reader_enable = \$43 ;
+  assign axihp_reader_data_full = \$39 ;
+  assign axihp_reader_enable = \$37 ;
   assign address_gen_write_starting_address = dma_axi_lite_write_addr;
   assign address_gen_write_address_latch = axihp_writer_addr_enable;
   assign address_gen_read_starting_address = dma_axi_lite_read_addr;
@@ -14284,28 +14257,29 @@ module top(m_axi_areset_n_, m_axi_ro__arid, m_axi_ro__araddr, m_axi_ro__arburst,
   assign dma_axi_lite_in9 = b64_b32_data_out;
   assign dma_axi_lite_in8 = b16_b64_data_out[63:32];
   assign dma_axi_lite_in7 = b16_b64_data_out[31:0];
-  assign dma_axi_lite_in6 = \$41 ;
+  assign dma_axi_lite_in6 = \$35 ;
   assign dma_axi_lite_in5 = counter_write;
   assign dma_axi_lite_in4 = counter_read;
   assign dma_axi_lite_in3 = address_gen_write_address_o;
   assign dma_axi_lite_in2 = address_gen_read_address_o;
-  assign dma_axi_lite_in1 = \$39 ;
+  assign dma_axi_lite_in1 = \$33 ;
+  assign write_end = \$9 ;
 endmodule
 
 (* generator = "nMigen" *)
 (* \nmigen.hierarchy  = "top.top" *)
 module \top$1 (nready, valid_in, busy_in, pixel_in1, pixel_in2, valid_out, end_out, full_rst, full_clk, data_out);
-  (* src = "beta_integration.py:131" *)
+  (* src = "beta_integration.py:134" *)
   wire \$10 ;
-  (* src = "beta_integration.py:131" *)
+  (* src = "beta_integration.py:134" *)
   wire \$12 ;
-  (* src = "beta_integration.py:69" *)
+  (* src = "beta_integration.py:72" *)
   wire \$2 ;
-  (* src = "beta_integration.py:69" *)
+  (* src = "beta_integration.py:72" *)
   wire \$4 ;
-  (* src = "beta_integration.py:69" *)
+  (* src = "beta_integration.py:72" *)
   wire \$6 ;
-  (* src = "beta_integration.py:76" *)
+  (* src = "beta_integration.py:79" *)
   wire \$8 ;
   (* src = "auto_reset.py:34" *)
   wire auto_reset_end_in;
@@ -14421,12 +14395,12 @@ module \top$1 (nready, valid_in, busy_in, pixel_in1, pixel_in2, valid_out, end_o
   (* src = "beta_integration.py:40" *)
   output valid_out;
   wire valid_out;
-  assign \$10  = auto_reset_reset_out == (* src = "beta_integration.py:131" *) 1'h0;
-  assign \$12  = markers_valid_out & (* src = "beta_integration.py:131" *) \$10 ;
-  assign \$2  = auto_reset_reset_out == (* src = "beta_integration.py:69" *) 1'h1;
-  assign \$4  = full_rst == (* src = "beta_integration.py:69" *) 1'h1;
-  assign \$6  = \$2  | (* src = "beta_integration.py:69" *) \$4 ;
-  assign \$8  = busy_in == (* src = "beta_integration.py:76" *) 1'h0;
+  assign \$10  = auto_reset_reset_out == (* src = "beta_integration.py:134" *) 1'h0;
+  assign \$12  = markers_valid_out & (* src = "beta_integration.py:134" *) \$10 ;
+  assign \$2  = auto_reset_reset_out == (* src = "beta_integration.py:72" *) 1'h1;
+  assign \$4  = full_rst == (* src = "beta_integration.py:72" *) 1'h1;
+  assign \$6  = \$2  | (* src = "beta_integration.py:72" *) \$4 ;
+  assign \$8  = busy_in == (* src = "beta_integration.py:79" *) 1'h0;
   auto_reset auto_reset (
     .clk(integration_3_clk),
     .end_in(auto_reset_end_in),
@@ -14522,103 +14496,103 @@ endmodule
 (* \nmigen.hierarchy  = "top.top.integration_3.integration_2.lj92_pipeline_fifo.fifo.unbuffered" *)
 module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
   reg \$auto$verilog_backend.cc:2184:dump_module$234  = 0;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$10 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$11 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$13 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire \$14 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$17 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$19 ;
-  (* src = "nmigen/lib/fifo.py:202" *)
+  (* src = "fifo.py:202" *)
   wire \$2 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$20 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$22 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire \$23 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$26 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$28 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$29 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$32 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [9:0] \$34 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [9:0] \$35 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$37 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$39 ;
-  (* src = "nmigen/lib/fifo.py:203" *)
+  (* src = "fifo.py:203" *)
   wire \$4 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$40 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$43 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [9:0] \$45 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [9:0] \$46 ;
-  (* src = "nmigen/lib/fifo.py:219" *)
+  (* src = "fifo.py:219" *)
   wire \$6 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$8 ;
   (* src = "clk_domains.py:5" *)
   input clk;
   wire clk;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [8:0] \consume$next ;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [8:0] \level$next ;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [8:0] \produce$next ;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [62:0] r_data;
   wire [62:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
   wire rst;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [8:0] storage_r_addr;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [62:0] storage_r_data;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire storage_r_en;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [8:0] storage_w_addr;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [62:0] storage_w_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire storage_w_en;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [62:0] w_data;
   wire [62:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   output w_rdy;
   wire w_rdy;
   reg [62:0] storage [510:0];
@@ -15146,27 +15120,27 @@ module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
     end
   end
   assign storage_r_data = _0_;
-  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
-  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
-  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
-  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
-  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
-  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
-  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
-  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
-  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
-  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
-  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
-  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
-  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
-  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
-  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$11  = produce + (* src = "fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "fifo.py:207" *) w_en;
   always @(posedge clk)
     level <= \level$next ;
   always @(posedge clk)
@@ -15176,19 +15150,19 @@ module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$234 ) begin end
     \level$next  = level;
-    (* src = "nmigen/lib/fifo.py:233" *)
+    (* src = "fifo.py:233" *)
     casez (\$32 )
-      /* src = "nmigen/lib/fifo.py:233" */
+      /* src = "fifo.py:233" */
       1'h1:
           \level$next  = \$35 [8:0];
     endcase
-    (* src = "nmigen/lib/fifo.py:235" *)
+    (* src = "fifo.py:235" *)
     casez (\$43 )
-      /* src = "nmigen/lib/fifo.py:235" */
+      /* src = "fifo.py:235" */
       1'h1:
           \level$next  = \$46 [8:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \level$next  = 9'h000;
@@ -15197,13 +15171,13 @@ module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$234 ) begin end
     \produce$next  = produce;
-    (* src = "nmigen/lib/fifo.py:221" *)
+    (* src = "fifo.py:221" *)
     casez (\$8 )
-      /* src = "nmigen/lib/fifo.py:221" */
+      /* src = "fifo.py:221" */
       1'h1:
           \produce$next  = \$13 [8:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \produce$next  = 9'h000;
@@ -15212,13 +15186,13 @@ module unbuffered(rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$234 ) begin end
     \consume$next  = consume;
-    (* src = "nmigen/lib/fifo.py:230" *)
+    (* src = "fifo.py:230" *)
     casez (\$17 )
-      /* src = "nmigen/lib/fifo.py:230" */
+      /* src = "fifo.py:230" */
       1'h1:
           \consume$next  = \$22 [8:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \consume$next  = 9'h000;
@@ -15242,103 +15216,103 @@ endmodule
 (* \nmigen.hierarchy  = "top.top.integration_3.integration_2.converter_fifo.fifo.unbuffered" *)
 module \unbuffered$6 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk);
   reg \$auto$verilog_backend.cc:2184:dump_module$235  = 0;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$10 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$11 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$13 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire \$14 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$17 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$19 ;
-  (* src = "nmigen/lib/fifo.py:202" *)
+  (* src = "fifo.py:202" *)
   wire \$2 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$20 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire [9:0] \$22 ;
-  (* src = "nmigen/lib/fifo.py:159" *)
+  (* src = "fifo.py:159" *)
   wire \$23 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$26 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$28 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$29 ;
-  (* src = "nmigen/lib/fifo.py:233" *)
+  (* src = "fifo.py:233" *)
   wire \$32 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [9:0] \$34 ;
-  (* src = "nmigen/lib/fifo.py:234" *)
+  (* src = "fifo.py:234" *)
   wire [9:0] \$35 ;
-  (* src = "nmigen/lib/fifo.py:206" *)
+  (* src = "fifo.py:206" *)
   wire \$37 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$39 ;
-  (* src = "nmigen/lib/fifo.py:203" *)
+  (* src = "fifo.py:203" *)
   wire \$4 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$40 ;
-  (* src = "nmigen/lib/fifo.py:235" *)
+  (* src = "fifo.py:235" *)
   wire \$43 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [9:0] \$45 ;
-  (* src = "nmigen/lib/fifo.py:236" *)
+  (* src = "fifo.py:236" *)
   wire [9:0] \$46 ;
-  (* src = "nmigen/lib/fifo.py:219" *)
+  (* src = "fifo.py:219" *)
   wire \$6 ;
-  (* src = "nmigen/lib/fifo.py:207" *)
+  (* src = "fifo.py:207" *)
   wire \$8 ;
   (* src = "clk_domains.py:5" *)
   input clk;
   wire clk;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [8:0] consume = 9'h000;
-  (* src = "nmigen/lib/fifo.py:214" *)
+  (* src = "fifo.py:214" *)
   reg [8:0] \consume$next ;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   output [8:0] level;
   reg [8:0] level = 9'h000;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   reg [8:0] \level$next ;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [8:0] produce = 9'h000;
-  (* src = "nmigen/lib/fifo.py:213" *)
+  (* src = "fifo.py:213" *)
   reg [8:0] \produce$next ;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   output [35:0] r_data;
   wire [35:0] r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   input r_en;
   wire r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   output r_rdy;
   wire r_rdy;
   (* src = "clk_domains.py:5" *)
   input rst;
   wire rst;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [8:0] storage_r_addr;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire [35:0] storage_r_data;
-  (* src = "nmigen/lib/fifo.py:211" *)
+  (* src = "fifo.py:211" *)
   wire storage_r_en;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [8:0] storage_w_addr;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire [35:0] storage_w_data;
-  (* src = "nmigen/lib/fifo.py:210" *)
+  (* src = "fifo.py:210" *)
   wire storage_w_en;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   input [35:0] w_data;
   wire [35:0] w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   input w_en;
   wire w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   output w_rdy;
   wire w_rdy;
   reg [35:0] storage [510:0];
@@ -15866,27 +15840,27 @@ module \unbuffered$6 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk)
     end
   end
   assign storage_r_data = _0_;
-  assign \$11  = produce + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
-  assign \$14  = produce == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
-  assign \$13  = \$14  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$11 ;
-  assign \$17  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$20  = consume + (* src = "nmigen/lib/fifo.py:159" *) 1'h1;
-  assign \$23  = consume == (* src = "nmigen/lib/fifo.py:159" *) 9'h1fe;
-  assign \$22  = \$23  ? (* src = "nmigen/lib/fifo.py:159" *) 10'h000 : \$20 ;
-  assign \$26  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$2  = level != (* src = "nmigen/lib/fifo.py:202" *) 9'h1ff;
-  assign \$29  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$28  = ~ (* src = "nmigen/lib/fifo.py:233" *) \$29 ;
-  assign \$32  = \$26  & (* src = "nmigen/lib/fifo.py:233" *) \$28 ;
-  assign \$35  = level + (* src = "nmigen/lib/fifo.py:234" *) 1'h1;
-  assign \$37  = r_rdy & (* src = "nmigen/lib/fifo.py:206" *) r_en;
-  assign \$40  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
-  assign \$39  = ~ (* src = "nmigen/lib/fifo.py:235" *) \$40 ;
-  assign \$43  = \$37  & (* src = "nmigen/lib/fifo.py:235" *) \$39 ;
-  assign \$46  = level - (* src = "nmigen/lib/fifo.py:236" *) 1'h1;
-  assign \$4  = level != (* src = "nmigen/lib/fifo.py:203" *) 1'h0;
-  assign \$6  = w_en & (* src = "nmigen/lib/fifo.py:219" *) w_rdy;
-  assign \$8  = w_rdy & (* src = "nmigen/lib/fifo.py:207" *) w_en;
+  assign \$11  = produce + (* src = "fifo.py:159" *) 1'h1;
+  assign \$14  = produce == (* src = "fifo.py:159" *) 9'h1fe;
+  assign \$13  = \$14  ? (* src = "fifo.py:159" *) 10'h000 : \$11 ;
+  assign \$17  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$20  = consume + (* src = "fifo.py:159" *) 1'h1;
+  assign \$23  = consume == (* src = "fifo.py:159" *) 9'h1fe;
+  assign \$22  = \$23  ? (* src = "fifo.py:159" *) 10'h000 : \$20 ;
+  assign \$26  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$2  = level != (* src = "fifo.py:202" *) 9'h1ff;
+  assign \$29  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$28  = ~ (* src = "fifo.py:233" *) \$29 ;
+  assign \$32  = \$26  & (* src = "fifo.py:233" *) \$28 ;
+  assign \$35  = level + (* src = "fifo.py:234" *) 1'h1;
+  assign \$37  = r_rdy & (* src = "fifo.py:206" *) r_en;
+  assign \$40  = w_rdy & (* src = "fifo.py:207" *) w_en;
+  assign \$39  = ~ (* src = "fifo.py:235" *) \$40 ;
+  assign \$43  = \$37  & (* src = "fifo.py:235" *) \$39 ;
+  assign \$46  = level - (* src = "fifo.py:236" *) 1'h1;
+  assign \$4  = level != (* src = "fifo.py:203" *) 1'h0;
+  assign \$6  = w_en & (* src = "fifo.py:219" *) w_rdy;
+  assign \$8  = w_rdy & (* src = "fifo.py:207" *) w_en;
   always @(posedge clk)
     level <= \level$next ;
   always @(posedge clk)
@@ -15896,19 +15870,19 @@ module \unbuffered$6 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk)
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$235 ) begin end
     \level$next  = level;
-    (* src = "nmigen/lib/fifo.py:233" *)
+    (* src = "fifo.py:233" *)
     casez (\$32 )
-      /* src = "nmigen/lib/fifo.py:233" */
+      /* src = "fifo.py:233" */
       1'h1:
           \level$next  = \$35 [8:0];
     endcase
-    (* src = "nmigen/lib/fifo.py:235" *)
+    (* src = "fifo.py:235" *)
     casez (\$43 )
-      /* src = "nmigen/lib/fifo.py:235" */
+      /* src = "fifo.py:235" */
       1'h1:
           \level$next  = \$46 [8:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \level$next  = 9'h000;
@@ -15917,13 +15891,13 @@ module \unbuffered$6 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk)
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$235 ) begin end
     \produce$next  = produce;
-    (* src = "nmigen/lib/fifo.py:221" *)
+    (* src = "fifo.py:221" *)
     casez (\$8 )
-      /* src = "nmigen/lib/fifo.py:221" */
+      /* src = "fifo.py:221" */
       1'h1:
           \produce$next  = \$13 [8:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \produce$next  = 9'h000;
@@ -15932,13 +15906,13 @@ module \unbuffered$6 (rst, w_data, w_en, w_rdy, r_data, r_en, r_rdy, level, clk)
   always @* begin
     if (\$auto$verilog_backend.cc:2184:dump_module$235 ) begin end
     \consume$next  = consume;
-    (* src = "nmigen/lib/fifo.py:230" *)
+    (* src = "fifo.py:230" *)
     casez (\$17 )
-      /* src = "nmigen/lib/fifo.py:230" */
+      /* src = "fifo.py:230" */
       1'h1:
           \consume$next  = \$22 [8:0];
     endcase
-    (* src = "nmigen/hdl/xfrm.py:528" *)
+    (* src = "xfrm.py:528" *)
     casez (rst)
       1'h1:
           \consume$next  = 9'h000;
@@ -16093,19 +16067,19 @@ module writer_fifo(valid_out, writable, data_in, end_in, valid_in, read, data_ou
   (* src = "axihp_fifo.py:14" *)
   output end_out;
   wire end_out;
-  (* src = "nmigen/lib/fifo.py:190" *)
+  (* src = "fifo.py:190" *)
   wire [5:0] fifo_level;
-  (* src = "nmigen/lib/fifo.py:78" *)
+  (* src = "fifo.py:78" *)
   wire [64:0] fifo_r_data;
-  (* src = "nmigen/lib/fifo.py:80" *)
+  (* src = "fifo.py:80" *)
   wire fifo_r_en;
-  (* src = "nmigen/lib/fifo.py:79" *)
+  (* src = "fifo.py:79" *)
   wire fifo_r_rdy;
-  (* src = "nmigen/lib/fifo.py:74" *)
+  (* src = "fifo.py:74" *)
   wire [64:0] fifo_w_data;
-  (* src = "nmigen/lib/fifo.py:76" *)
+  (* src = "fifo.py:76" *)
   wire fifo_w_en;
-  (* src = "nmigen/lib/fifo.py:75" *)
+  (* src = "fifo.py:75" *)
   wire fifo_w_rdy;
   (* src = "clk_domains.py:4" *)
   input full_clk;
-- 
2.43.0

